"""Hash-consed terms shared by the two verification-condition generators.

Sorts: 'R' (mathematical reals), 'I' (mathematical integers), 'B' (booleans).
Construction performs only cheap, obviously valid simplifications.
"""
from fractions import Fraction
import math

_table = {}
_ids = [0]


class Term:
    __slots__ = ("op", "args", "val", "sort", "id", "_poly", "_vars")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, args, val, sort):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.val, t.sort = op, args, val, sort
        _ids[0] += 1
        t.id = _ids[0]
        t._poly = None
        t._vars = None
        _table[key] = t
    return t


def reset_terms():
    """Forget unreferenced terms (terms held elsewhere stay valid)."""
    _table.clear()
    for t in (TRUE, FALSE):
        _table[(t.op, (), t.val, t.sort)] = t
    for t in (ZERO, ONE):
        _table[(t.op, (), t.val, t.sort)] = t


def real(v):
    if isinstance(v, Term):
        return toreal(v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            raise ValueError("non-finite constant")
        v = Fraction(repr(float(v)))
    return _mk("c", (), Fraction(v), "R")


def integer(v):
    return _mk("c", (), int(v), "I")


def boolean(v):
    return TRUE if v else FALSE


TRUE = _mk("c", (), True, "B")
FALSE = _mk("c", (), False, "B")
ZERO = _mk("c", (), Fraction(0), "R")
ONE = _mk("c", (), Fraction(1), "R")
I0 = integer(0)
I1 = integer(1)

_fresh = [0]


def var(name, sort="R"):
    return _mk("v", (), name, sort)


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def is_const(t):
    return t.op == "c"


def const(v, sort):
    if sort == "R":
        return real(v)
    if sort == "I":
        return integer(v)
    return boolean(v)


def toreal(t):
    if t.sort == "R":
        return t
    if t.sort == "I":
        if t.op == "c":
            return real(t.val)
        return _mk("toreal", (t,), None, "R")
    return ite(t, ONE, ZERO)


def b2i(t):
    return ite(t, I1, I0)


def _unify(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == "B":
        a = b2i(a)
    if b.sort == "B":
        b = b2i(b)
    if a.sort == b.sort:
        return a, b
    return toreal(a), toreal(b)


def add(a, b):
    a, b = _unify(a, b)
    if a.sort == "B":
        a, b = b2i(a), b2i(b)
    if a.op == "c" and b.op == "c":
        return const(a.val + b.val, a.sort)
    if a.op == "c" and a.val == 0:
        return b
    if b.op == "c" and b.val == 0:
        return a
    if b.op == "c":
        a, b = b, a
    if a.op == "c" and b.op == "+" and b.args[0].op == "c":
        return add(const(a.val + b.args[0].val, a.sort), b.args[1])
    if b.op == "*" and b.args[0].op == "c" and b.args[0].val == -1 and b.args[1] is a:
        return const(0, a.sort)
    if a.op == "*" and a.args[0].op == "c" and a.args[0].val == -1 and a.args[1] is b:
        return const(0, a.sort)
    return _mk("+", (a, b), None, a.sort)


def mul(a, b):
    a, b = _unify(a, b)
    if a.sort == "B":
        a, b = b2i(a), b2i(b)
    if a.op == "c" and b.op == "c":
        return const(a.val * b.val, a.sort)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.val == 0:
            return const(0, a.sort)
        if a.val == 1:
            return b
        if b.op == "*" and b.args[0].op == "c":
            return mul(const(a.val * b.args[0].val, a.sort), b.args[1])
        if b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c":
            return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
        return _mk("*", (a, b), None, a.sort)
    if a.id > b.id:
        a, b = b, a
    return _mk("*", (a, b), None, a.sort)


def neg(a):
    if a.sort == "B":
        a = b2i(a)
    return mul(const(-1, a.sort), a)


def sub(a, b):
    if a is b:
        return const(0, a.sort if a.sort != "B" else "I")
    return add(a, neg(b))


def inv(a):
    a = toreal(a)
    if a.op == "c":
        if a.val == 0:
            # an unspecified but fixed value, as in SMT-LIB
            return _mk("inv", (a,), None, "R")
        return real(1 / a.val)
    if a.op == "inv" and not (a.args[0].op == "c"):
        pass
    return _mk("inv", (a,), None, "R")


def div(a, b):
    a, b = toreal(a), toreal(b)
    if b.op == "c" and b.val != 0:
        return mul(real(1 / b.val), a)
    return mul(a, inv(b))


def idiv(a, b):
    """Euclidean/floor division for integers (b constant > 0 gives floor)."""
    if a.op == "c" and b.op == "c" and b.val != 0:
        return integer(a.val // b.val)
    if b.op == "c" and b.val == 1:
        return a
    return _mk("idiv", (a, b), None, "I")


def imod(a, b):
    if a.op == "c" and b.op == "c" and b.val != 0:
        return integer(a.val % b.val)
    if b.op == "c" and b.val == 1:
        return I0
    return _mk("imod", (a, b), None, "I")


def floor(a):
    """Real -> Int."""
    if a.sort == "I":
        return a
    if a.op == "c":
        return integer(math.floor(a.val))
    if a.op == "toreal":
        return a.args[0]
    return _mk("floor", (a,), None, "I")


def ceil(a):
    if a.sort == "I":
        return a
    return neg(floor(neg(a)))


def ite(c, a, b):
    if c.op == "c":
        return a if c.val else b
    a, b = _unify(a, b) if a.sort != b.sort else (a, b)
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), None, a.sort)


def lt(a, b):
    return not_(le(b, a))


def le(a, b):
    if a is b:
        return TRUE
    a, b = _unify(a, b)
    if a.sort == "B":
        a, b = b2i(a), b2i(b)
    if a.op == "c" and b.op == "c":
        return boolean(a.val <= b.val)
    # comparisons of an ite of constants with a constant
    if b.op == "c" and a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], boolean(a.args[1].val <= b.val), boolean(a.args[2].val <= b.val))
    if a.op == "c" and b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c":
        return ite(b.args[0], boolean(a.val <= b.args[1].val), boolean(a.val <= b.args[2].val))
    return _mk("<=", (a, b), None, "B")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort != b.sort:
        a, b = _unify(a, b)
        if a is b:
            return TRUE
    if a.op == "c" and b.op == "c":
        return boolean(a.val == b.val)
    if a.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c":
            return ite(b.args[0], boolean(a.val == b.args[1].val), boolean(a.val == b.args[2].val))
        if b.op == "+" and b.args[0].op == "c":
            return eq(const(a.val - b.args[0].val, a.sort), b.args[1])
    elif a.id > b.id:
        a, b = b, a
    return _mk("=", (a, b), None, "B")


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a.sort != "B":
        a = ne(a, const(0, a.sort))
    if a.op == "c":
        return boolean(not a.val)
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), None, "B")


def truth(a):
    return a if a.sort == "B" else ne(a, const(0, a.sort))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), None, "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def tmax(a, b):
    a, b = _unify(a, b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.val >= b.val else b
    return ite(le(a, b), b, a)


def tmin(a, b):
    a, b = _unify(a, b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.val <= b.val else b
    return ite(le(a, b), a, b)


def tabs(a):
    if a.op == "c":
        return const(abs(a.val), a.sort)
    if a.op == "abs":
        return a
    if a.op == "*" and a.args[0].op == "c":
        return mul(const(abs(a.args[0].val), a.sort), tabs(a.args[1]))
    return _mk("abs", (a,), None, a.sort)


def sign(a):
    z = const(0, a.sort)
    return ite(lt(z, a), const(1, a.sort), ite(lt(a, z), const(-1, a.sort), z))


def rnd(a):
    """round to nearest; the direction taken at ties is left unspecified (a fixed
    function of the argument), so that a proof covers every rounding convention."""
    if a.sort == "I":
        return a
    if a.op == "c":
        f = a.val - math.floor(a.val)
        if f != Fraction(1, 2):
            return integer(math.floor(a.val + Fraction(1, 2)))
    if a.op == "toreal":
        return a.args[0]
    return _mk("round", (a,), None, "I")


def trunc(a):
    if a.sort == "I":
        return a
    return ite(le(real(0), a), floor(a), ceil(a))


def uf(name, args, sort="R"):
    args = tuple(args)
    if name in ("exp", "log", "sqrt", "pow", "tanh", "sigmoid") and all(a.op == "c" for a in args):
        v = [a.val for a in args]
        if name == "exp" and v[0] == 0:
            return ONE
        if name == "log" and v[0] == 1:
            return ZERO
        if name == "sqrt" and v[0] in (0, 1):
            return real(v[0])
        if name == "tanh" and v[0] == 0:
            return ZERO
        if name == "sqrt" and v[0] > 0:
            n, d = math.isqrt(v[0].numerator), math.isqrt(v[0].denominator)
            if n * n == v[0].numerator and d * d == v[0].denominator:
                return real(Fraction(n, d))
    if name == "log" and args[0].op == "uf" and args[0].val == "exp":
        return args[0].args[0]
    if name == "pow":
        x, y = args
        if y.op == "c":
            if y.val == 0:
                return ONE
            if y.val == 1:
                return x
            if y.val.denominator == 1 and 0 < y.val <= 4:
                r = x
                for _ in range(int(y.val) - 1):
                    r = mul(r, x)
                return r
            if y.val == Fraction(1, 2):
                return uf("sqrt", (x,))
            if y.val == -1:
                return inv(x)
        if x.op == "c" and x.val == 1:
            return ONE
    return _mk("uf", args, name, sort)


_uf_cache = {}


def has_uf(ts):
    """is an uninterpreted function below one of the terms"""
    def go(t):
        r = _uf_cache.get(t.id)
        if r is None:
            _uf_cache[t.id] = r = t.op == "uf" or any(go(a) for a in t.args)
        return r
    return any(go(t) for t in ts)


def free_vars(t):
    """ids of variables (and uninterpreted applications' variables) below t."""
    if t._vars is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._vars is not None:
                stack.pop()
                continue
            todo = [a for a in x.args if a._vars is None]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset((x,)) if x.op == "v" else frozenset()
            for a in x.args:
                s = s | a._vars
            x._vars = s
            stack.pop()
    return t._vars


def substitute(t, mp, cache=None):
    """Simultaneous substitution {term: term}."""
    if cache is None:
        cache = {}
    keys = {k: v for k, v in mp.items()}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        if x in keys:
            r = keys[x]
        elif not x.args:
            r = x
        else:
            na = [go(a) for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x, na)
        cache[x] = r
        return r

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def rebuild(x, na):
    o = x.op
    if o == "+":
        return add(na[0], na[1])
    if o == "*":
        return mul(na[0], na[1])
    if o == "inv":
        return inv(na[0])
    if o == "toreal":
        return toreal(na[0])
    if o == "idiv":
        return idiv(na[0], na[1])
    if o == "imod":
        return imod(na[0], na[1])
    if o == "floor":
        return floor(na[0])
    if o == "round":
        return rnd(na[0])
    if o == "ite":
        return ite(*na)
    if o == "<=":
        return le(*na)
    if o == "=":
        return eq(*na)
    if o == "not":
        return not_(na[0])
    if o == "and":
        return and_(*na)
    if o == "abs":
        return tabs(na[0])
    if o == "uf":
        return uf(x.val, na, x.sort)
    return _mk(o, tuple(na), x.val, x.sort)


def evaluate(t, env):
    """Exact evaluation under {var term: python value}; UFs via math (float)."""
    cache = {}

    def go(x):
        if x.id in cache:
            return cache[x.id]
        o = x.op
        if o == "c":
            r = x.val
        elif o == "v":
            r = env[x]
        else:
            if o == "ite":
                r = go(x.args[1]) if go(x.args[0]) else go(x.args[2])
                cache[x.id] = r
                return r
            a = [go(y) for y in x.args]
            if o == "+":
                r = a[0] + a[1]
            elif o == "*":
                r = a[0] * a[1]
            elif o == "inv":
                r = Fraction(1) / a[0] if isinstance(a[0], (Fraction, int)) else 1.0 / a[0]
            elif o == "toreal":
                r = a[0]
            elif o == "idiv":
                r = a[0] // a[1]
            elif o == "imod":
                r = a[0] % a[1]
            elif o == "floor":
                r = math.floor(a[0])
            elif o == "round":
                r = round(a[0])
            elif o == "<=":
                r = a[0] <= a[1]
            elif o == "=":
                r = a[0] == a[1]
            elif o == "not":
                r = not a[0]
            elif o == "and":
                r = all(a)
            elif o == "abs":
                r = abs(a[0])
            elif o == "uf":
                r = _ufeval(x.val, a)
            else:
                raise KeyError(o)
        cache[x.id] = r
        return r

    return go(t)


def _ufeval(name, a):
    f = [float(v) for v in a]
    if name == "sigmoid":
        return 1 / (1 + math.exp(-f[0]))
    if name == "pow":
        return f[0] ** f[1]
    if name in ("exp", "log", "sqrt", "tanh", "log10", "log2"):
        return getattr(math, name)(f[0])
    raise KeyError(name)


def show(t, depth=6):
    if t.op == "c":
        return str(t.val) if t.sort != "R" or t.val.denominator == 1 else "%s" % (float(t.val),)
    if t.op == "v":
        return str(t.val)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args]
    if t.op in ("+", "*", "<=", "="):
        return "(" + (" %s " % t.op).join(a) + ")"
    if t.op == "uf":
        return "%s(%s)" % (t.val, ", ".join(a))
    if t.op == "toreal":
        return a[0]
    return "%s(%s)" % (t.op, ", ".join(a))
