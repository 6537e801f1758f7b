"""Symbolic execution of plain Python/numpy code.

The real functions are called with symbolic numbers (SR), truth values (SB) and
arrays of them (SA, an object-dtype ndarray).  Arithmetic builds expressions;
numpy's ufuncs and a table of functions are lifted elementwise; a symbolic truth
value that the program needs (an if, a boolean mask, an index) forks the path.
Jitted functions met on the way are executed through jx.  All paths whose
condition is satisfiable are enumerated by depth-first re-execution.
"""
import builtins
import math
import sys
import contextlib

import numpy as np
import jax
from jax import numpy as jnp

from . import expr as X
from . import jx
from .expr import Poly

PATH = None
TOKENS = []
_REAL_FLOAT, _REAL_INT = float, int


class Infeasible(Exception):
    """the path under execution contradicts the assumptions"""


class Unsupported(Exception):
    pass


class Path:
    """one path: replays a prefix of decisions, then takes feasible branches"""

    def __init__(self, prefix, feasible, limit=4000):
        self.prefix, self.feasible = list(prefix), feasible
        self.taken, self.conds, self.alt = [], [], []
        self.limit = limit
        self.extra = []
        self.defs = []   # values that satisfy `extra`: (atom, poly)
        self.free = {}   # choices about which nothing else is said

    def choose(self, b):
        """a free choice: both outcomes are possible whatever else holds"""
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        if i >= len(self.prefix):
            self.alt.append(self.taken + [False])
        self.taken.append(v)
        self.conds.append(b if v else X.Not(b))
        self.free[b] = v
        if len(self.taken) > self.limit:
            raise Unsupported("too many branches on one path")
        return v

    def fork(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        for c in self.conds:
            if c == b:
                return True
            if c == X.Not(b):
                return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible(self.conds + [b])
            f = self.feasible(self.conds + [X.Not(b)])
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                self.alt.append(self.taken + [False])
        self.taken.append(v)
        c = b if v else X.Not(b)
        self.conds += list(c[1]) if isinstance(c, tuple) and c[0] == "and" else [c]
        if len(self.taken) > self.limit:
            raise Unsupported("too many branches on one path")
        return v


def fork(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if PATH is None:
        raise Unsupported("symbolic branch outside a path")
    return PATH.fork(b)


# ------------------------------------------------------------------ elements
def poly(x):
    if isinstance(x, SR):
        return x.p
    if isinstance(x, SB):
        return X.ite(x.b, X.ONE, X.ZERO)
    if isinstance(x, Poly):
        return x
    if isinstance(x, (bool, np.bool_)):
        return X.ONE if x else X.ZERO
    if isinstance(x, (_REAL_INT, np.integer)):
        return X.const(_REAL_INT(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return poly(x[()])
    if isinstance(x, jax.Array) and x.shape == ():
        return poly(np.asarray(x)[()])
    return X.litp(_REAL_FLOAT(x))


def isnum(x):
    return isinstance(x, (_REAL_FLOAT, _REAL_INT, np.floating, np.integer, np.bool_, SR, SB)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == () and not isinstance(x, np.ndarray))


def _finite(x):
    return not isinstance(x, (_REAL_FLOAT, np.floating)) or math.isfinite(x)


def _ar(op, a, b):
    if not (isnum(a) and isnum(b)):
        return NotImplemented
    fa, fb = _finite(a), _finite(b)
    if not (fa and fb):
        return _nonfin(op, a, b)
    a, b = poly(a), poly(b)
    if op == "+":
        return SR(a + b)
    if op == "-":
        return SR(a - b)
    if op == "*":
        return SR(a * b)
    if op == "/":
        return _div(a, b)
    return SR(X.power(a, b))


def _div(a, b):
    if b.const() == 0:
        ca = a.const()
        if ca is None:
            if fork(X.eq(a, X.ZERO)):
                return math.nan
            return math.inf if fork(X.gt(a, X.ZERO)) else -math.inf
        return math.nan if ca == 0 else math.copysign(math.inf, ca)
    if b.const() is None and PATH is not None:
        # a zero divisor is a branch of its own
        if fork(X.eq(b, X.ZERO)):
            return _div(a, X.ZERO)
    return SR(X.div(a, b))


def _nonfin(op, a, b):
    """arithmetic of a symbolic finite number with inf or nan"""
    for x in (a, b):
        if isinstance(x, (_REAL_FLOAT, np.floating)) and math.isnan(x):
            return math.nan
    inf_first = not _finite(a)
    v = a if inf_first else b
    o = b if inf_first else a
    if not _finite(o):
        return {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q,
                "/": lambda p, q: math.nan, "**": lambda p, q: p ** q}[op](a, b)
    if op == "+":
        return v
    if op == "-":
        return v if inf_first else -v
    if op == "*":
        p = poly(o)
        if fork(X.eq(p, X.ZERO)):
            return math.nan
        return v if fork(X.gt(p, X.ZERO)) else -v
    if op == "/":
        return (v if fork(X.ge(poly(o), X.ZERO)) else -v) if inf_first else 0.0
    raise Unsupported("power with a non-finite number")


def _cmp(op, a, b):
    if isinstance(b, np.ndarray) and b.shape:
        return NotImplemented
    if b is None or isinstance(b, (str, tuple, list)) or not isnum(b):
        return NotImplemented
    if not (_finite(a) and _finite(b)):
        x = 0.0 if _finite(a) else _REAL_FLOAT(a)
        y = 0.0 if _finite(b) else _REAL_FLOAT(b)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                "==": x == y and not _finite(a) and not _finite(b),
                "!=": not (x == y and not _finite(a) and not _finite(b))}[op]
    if isinstance(a, SB) and isinstance(b, (SB, bool, np.bool_)) and op in ("==", "!="):
        r = X.Iff(a.b, bexpr(b))
        return sb(r if op == "==" else X.Not(r))
    p, q = poly(a), poly(b)
    return sb(X.decide({"<": X.lt, "<=": X.le, ">": X.gt, ">=": X.ge, "==": X.eq, "!=": X.ne}[op](p, q)))


def sb(b):
    return np.bool_(b) if isinstance(b, (bool, np.bool_)) else SB(b)


def bexpr(x):
    if isinstance(x, SB):
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SR):
        return X.ne(x.p, X.ZERO)
    return bool(x)


class _Num:
    __slots__ = ()
    __array_priority__ = 1000.0

    def __add__(self, o):
        return _ar("+", self, o)

    def __radd__(self, o):
        return _ar("+", o, self)

    def __sub__(self, o):
        return _ar("-", self, o)

    def __rsub__(self, o):
        return _ar("-", o, self)

    def __mul__(self, o):
        return _ar("*", self, o)

    def __rmul__(self, o):
        return _ar("*", o, self)

    def __truediv__(self, o):
        return _ar("/", self, o)

    def __rtruediv__(self, o):
        return _ar("/", o, self)

    def __pow__(self, o):
        return _ar("**", self, o)

    def __rpow__(self, o):
        return _ar("**", o, self)

    def __neg__(self):
        return SR(-poly(self))

    def __pos__(self):
        return self

    def __abs__(self):
        p = poly(self)
        return SR(X.ite(X.ge(p, X.ZERO), p, -p))

    def __lt__(self, o):
        return _cmp("<", self, o)

    def __le__(self, o):
        return _cmp("<=", self, o)

    def __gt__(self, o):
        return _cmp(">", self, o)

    def __ge__(self, o):
        return _cmp(">=", self, o)

    def __eq__(self, o):
        return _cmp("==", self, o)

    def __ne__(self, o):
        return _cmp("!=", self, o)

    def __hash__(self):
        return hash(poly(self))

    def __float__(self):
        c = poly(self).const()
        if c is not None:
            return _REAL_FLOAT(c)
        raise Unsupported("a symbolic number is needed as a machine number")

    def __index__(self):
        return toint(self)

    __int__ = __index__

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        return _ufunc(ufunc, method, ins, kw)

    # numpy-scalar look-alikes
    shape = ()
    size = 1
    ndim = 0

    @property
    def dtype(self):
        return np.dtype(_REAL_FLOAT)

    def astype(self, t, *a, **k):
        return _astype(self, t)

    def item(self):
        return self

    def reshape(self, *s):
        return SA.of([self]).reshape(*s)

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def block_until_ready(self):
        return self

    def __getitem__(self, ix):
        if ix == ():
            return self
        if ix is None or ix is Ellipsis:
            return SA.of([self]) if ix is None else self
        raise IndexError("invalid index to scalar variable.")


class SR(_Num):
    """symbolic real"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p if isinstance(p, Poly) else X.P(p)

    def __bool__(self):
        return fork(X.ne(self.p, X.ZERO))

    def __str__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return str(_REAL_INT(c))
        return token(self, "")

    def __repr__(self):
        return f"SR({X.show(self.p)[:60]})"

    def __format__(self, spec):
        return token(self, spec)

    def __round__(self, n=0):
        raise Unsupported("round")


class SB(_Num):
    """symbolic truth value"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return fork(self.b)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sb(X.And(self.b, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sb(X.Or(self.b, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sb(X.Not(X.Iff(self.b, bexpr(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return sb(X.Not(self.b))

    @property
    def dtype(self):
        return np.dtype(bool)

    def any(self, *a, **k):
        return self

    all = any


def toint(x):
    if isinstance(x, SB):
        return 1 if fork(x.b) else 0
    p = poly(x)
    c = p.const()
    if c is not None:
        if c.denominator != 1:
            raise TypeError("not an integer")
        return _REAL_INT(c)
    for cond, i in jx.leaves_of_int(p):
        if fork(cond):
            return i
    raise Infeasible()


def token(x, spec):
    TOKENS.append((x, spec))
    return f"\x01{len(TOKENS) - 1}\x02"


def untoken(s, want):
    """the number a formatted string stands for"""
    x, spec = TOKENS[_REAL_INT(s[1:-1])]
    if spec in ("", "d", "s"):
        return x
    k = spec[-1]
    d = spec[:-1].lstrip("<>=^+- 0123456789") if "." in spec else ".6"
    n = _REAL_INT(d[1:]) if d.startswith(".") else 6
    p = poly(x)
    r = X.var(f"printed<{s[1:-1]}:{spec}>")
    ((m, _),) = r.t.items()
    PATH.defs.append((m[0][0], p))
    if k in "eE":
        e = X.const(X.Fr(1, 2 * 10 ** n))
        dd = X.ite(X.ge(p, X.ZERO), p, -p) * e
        PATH.extra += [X.le(r - p, dd), X.le(p - r, dd)]
    elif k in "fF":
        e = X.const(X.Fr(1, 2 * 10 ** n))
        PATH.extra += [X.le(r - p, e), X.le(p - r, e)]
    else:
        raise Unsupported(f"format {spec}")
    if want == "int":
        raise ValueError("invalid literal for int(): a formatted real")
    return SR(r)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls.real, SR))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)


class symfloat(metaclass=_TypeMeta):
    real = _REAL_FLOAT

    def __new__(cls, x=0.0):
        if isinstance(x, str) and x.startswith("\x01"):
            return _round53(untoken(x, "float"))
        if isinstance(x, (SR, SB)):
            return _round53(SR(poly(x)))
        if isinstance(x, SA) and x.size == 1:
            return symfloat(x.flat[0])
        return _REAL_FLOAT(x)


def _round53(x):
    """an integer kept as a machine float is exact only up to 2^53"""
    if not isinstance(x, SR) or x.p.const() is not None or not integral(x.p) or PATH is None:
        return x
    if not any(X.ATOMS[q].kind == "var" for q in X.poly_atoms(x.p)):
        return x
    p, big = x.p, X.const(2 ** 53)
    if all(PATH.fork(b) for b in (X.le(p, big), X.ge(p, -big))):
        return x
    r = X.var(f"int:float<{len(PATH.extra)}:{len(PATH.taken)}>")
    e = X.ite(X.ge(p, X.ZERO), p, -p) * X.const(X.Fr(1, 2 ** 53))
    PATH.extra += [X.le(r - p, e), X.le(p - r, e)]
    return SR(r)


class symint(metaclass=_TypeMeta):
    real = _REAL_INT

    def __new__(cls, x=0, *a):
        if isinstance(x, str) and x.startswith("\x01"):
            return untoken(x, "int")
        if isinstance(x, SB):
            return SR(poly(x))
        if isinstance(x, SR):
            return _trunc(x)
        return _REAL_INT(x, *a)


def _trunc(x):
    c = x.p.const()
    if c is not None:
        return _REAL_INT(c)
    if integral(x.p):
        return x
    raise Unsupported("int of a symbolic real")


def integral(p):
    return all(c.denominator == 1 for c in p.t.values()) and all(_int_atom(X.ATOMS[q]) for q in X.poly_atoms(p))


def _int_atom(a):
    if a.kind == "ite":
        return integral(a.data[1]) and integral(a.data[2])
    return a.kind == "var" and a.data.startswith("int:")


# --------------------------------------------------------------------- arrays
class SA(np.ndarray):
    """object array of SR / SB / machine numbers"""
    __array_priority__ = 900.0

    @staticmethod
    def of(x):
        if isinstance(x, SA):
            return x
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return x.view(SA)
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                r[i] = x[i]
            return r.view(SA)
        if isinstance(x, (list, tuple)):
            xs = [SA.of(v) for v in x]
            sh = xs[0].shape if xs else ()
            if any(v.shape != sh for v in xs):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            r = np.empty((len(xs),) + sh, dtype=object)
            for k, v in enumerate(xs):
                r[k] = v if sh else v[()]
            return r.view(SA)
        if hasattr(x, "__jax_array__") or isinstance(x, jax.Array):
            return SA.of(np.asarray(x))
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SA)

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        return _ufunc(ufunc, method, ins, kw)

    def __array_function__(self, func, types, args, kw):
        return npcall(func, args, kw)

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self.view(np.ndarray), _index(ix))
        if isinstance(r, np.ndarray):
            return r.view(SA) if r.dtype == object else r
        return r

    def __setitem__(self, ix, v):
        if isinstance(v, (list, tuple)):
            v = SA.of(v)
        if hasattr(v, "__jax_array__") or isinstance(v, jax.Array):
            v = np.asarray(v)
        if isinstance(v, SA):
            v = v.view(np.ndarray)
            if v.shape == ():
                v = v[()]
        ix = _index(ix)
        np.ndarray.__setitem__(self.view(np.ndarray), ix, v)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.flat[0])

    def __float__(self):
        return _REAL_FLOAT(self.flat[0])

    def __index__(self):
        if self.shape != ():
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return toint(self[()])

    __int__ = __index__

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def astype(self, t, *a, **k):
        return _astype(self, t)

    def copy(self, *a, **k):
        return self.view(np.ndarray).copy().view(SA)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    @property
    def kinddtype(self):
        return np.dtype(bool) if all(isinstance(x, (SB, bool, np.bool_)) for x in self.flat) else np.dtype(float)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _red("add", self, axis, keepdims, initial, where, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _red("multiply", self, axis, keepdims, initial, where, out)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _red("maximum", self, axis, keepdims, initial, where, out)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _red("minimum", self, axis, keepdims, initial, where, out)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return _red("logical_or", self, axis, keepdims, None, where, out)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return _red("logical_and", self, axis, keepdims, None, where, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        if where is not True:
            w = np.broadcast_to(SA.of(where), self.shape).view(SA)
            return _red("add", self, axis, keepdims, None, w, out) / _map(lambda b: SR(poly(b)), w).sum(axis, keepdims=keepdims)
        if out is not None:
            raise Unsupported("out")
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis, keepdims=keepdims) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _map(UN["sqrt"], self.var(axis, ddof=ddof, keepdims=keepdims))

    def argmax(self, axis=None):
        return _along(self, axis, lambda r: argbest(r, lambda a, b: a > b))

    def argmin(self, axis=None):
        return _along(self, axis, lambda r: argbest(r, lambda a, b: a < b))

    def cumsum(self, axis=None, dtype=None):
        return _accumulate("add", self if axis is not None else self.ravel(), axis or 0)

    def clip(self, lo=None, hi=None, min=None, max=None):
        return _clip(self, min if lo is None else lo, max if hi is None else hi)

    def round(self, *a, **k):
        raise Unsupported("round")

    def block_until_ready(self):
        return self


def _index(ix):
    if isinstance(ix, tuple):
        return tuple(_index1(i) for i in ix)
    return _index1(ix)


def _index1(i):
    if isinstance(i, SB):
        return bool(i)
    if isinstance(i, SR):
        return toint(i)
    if isinstance(i, list) and any(isinstance(v, _Num) for v in i):
        i = SA.of(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        if all(isinstance(v, (SB, bool, np.bool_)) for v in i.flat):
            return np.array([bool(v) for v in i.flat], dtype=bool).reshape(i.shape)
        return np.array([toint(v) for v in i.flat], dtype=_REAL_INT).reshape(i.shape)
    if isinstance(i, jax.Array):
        return np.asarray(i)
    if isinstance(i, slice):
        f = [toint(v) if isinstance(v, _Num) else v for v in (i.start, i.stop, i.step)]
        return slice(*f)
    return i


def _isint(t):
    try:
        if t is symint or t is _REAL_INT:
            return True
        if t is symfloat:
            return False
        return np.dtype(t).kind in "iu"
    except TypeError:
        return False


def _isbool(t):
    try:
        return t is bool or (t not in (symint, symfloat) and np.dtype(t).kind == "b")
    except TypeError:
        return False


def _astype(x, t):
    if _isint(t):
        return _map(lambda v: symint(v), x)
    if _isbool(t):
        return _map(lambda v: sb(bexpr(v)), x)
    if t in (str,) or (t not in (symfloat,) and np.dtype(t).kind in "SU"):
        return _map(str, x)
    return _map(lambda v: symfloat(v), x)


def _map(f, *xs):
    xs = [SA.of(x) for x in xs]
    sh = np.broadcast_shapes(*[x.shape for x in xs])
    bs = [np.broadcast_to(x.view(np.ndarray), sh) for x in xs]
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        r[i] = f(*[b[i] for b in bs])
    if sh == ():
        return r[()]
    return r.view(SA)


def _sym(*xs):
    return any(isinstance(x, _Num) for x in xs)


def _py(x):
    """numpy scalars as Python numbers, whose operators give way to SR's"""
    if isinstance(x, np.generic):
        return x.item()
    return x.item() if isinstance(x, jax.Array) and x.shape == () else x


def _un(name, f):
    real = getattr(np, name)

    def g(x):
        if _sym(x):
            return f(_py(x))
        with np.errstate(all="ignore"):
            return real(x)
    return g


def _logf(base):
    def f(x):
        p = poly(x)
        c = p.const()
        if c is not None and c <= 0:
            return -math.inf if c == 0 else math.nan
        if c is None and not _known_pos(p):
            if not fork(X.gt(p, X.ZERO)):
                return -math.inf if fork(X.eq(p, X.ZERO)) else math.nan
        return SR(X.log10(p) if base == 10 else X.Log(p) if base == 0 else X.Log(p) / X.Log(X.const(2)))
    return f


def _known_pos(p):
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return c > 0 and all(X.is_pos_atom(a) for a, e in m)


def _sqrt(x):
    p = poly(x)
    c = p.const()
    if c is not None and c < 0:
        return math.nan
    return SR(X.sqrt(p))


UN = {
    "negative": _un("negative", lambda x: -x), "absolute": _un("absolute", abs), "fabs": _un("fabs", abs),
    "log10": _un("log10", _logf(10)), "log": _un("log", _logf(0)), "exp": _un("exp", lambda x: SR(X.E(poly(x)))),
    "sqrt": _un("sqrt", _sqrt), "square": _un("square", lambda x: x * x),
    "isfinite": _un("isfinite", lambda x: np.True_), "isnan": _un("isnan", lambda x: np.False_),
    "isinf": _un("isinf", lambda x: np.False_), "positive": _un("positive", lambda x: x),
    "logical_not": _un("logical_not", lambda x: sb(X.Not(bexpr(x)))),
    "invert": _un("invert", lambda x: ~x), "sign": _un("sign", lambda x: SR(jx._sign(poly(x)))),
    "reciprocal": _un("reciprocal", lambda x: 1 / x), "conjugate": _un("conjugate", lambda x: x),
    "exp2": _un("exp2", lambda x: 2 ** x), "tanh": _un("tanh", lambda x: SR(X.tanh(poly(x)))),
    "log1p": _un("log1p", lambda x: _logf(0)(1 + x)), "expm1": _un("expm1", lambda x: SR(X.E(poly(x))) - 1),
}


def _max2(a, b):
    if not (_finite(a) and _finite(b)):
        return _pick(a, b, max)
    return SR(X.pmax(poly(a), poly(b)))


def _min2(a, b):
    if not (_finite(a) and _finite(b)):
        return _pick(a, b, min)
    return SR(X.pmin(poly(a), poly(b)))


def _pick(a, b, f):
    for x in (a, b):
        if isinstance(x, (_REAL_FLOAT, np.floating)) and math.isnan(x):
            return math.nan
    v, o = (a, b) if not _finite(a) else (b, a)
    if not _finite(o):
        return f(a, b)
    return v if (v > 0) == (f is max) else o


def _bi(name, f):
    real = getattr(np, name)

    def g(a, b):
        if _sym(a, b):
            return f(_py(a), _py(b))
        with np.errstate(all="ignore"):
            return real(a, b)
    return g


BI = {
    "add": _bi("add", lambda a, b: a + b), "subtract": _bi("subtract", lambda a, b: a - b),
    "multiply": _bi("multiply", lambda a, b: a * b), "divide": _bi("divide", lambda a, b: a / b),
    "true_divide": _bi("true_divide", lambda a, b: a / b), "power": _bi("power", lambda a, b: a ** b),
    "float_power": _bi("float_power", lambda a, b: a ** b),
    "less": _bi("less", lambda a, b: a < b), "less_equal": _bi("less_equal", lambda a, b: a <= b),
    "greater": _bi("greater", lambda a, b: a > b), "greater_equal": _bi("greater_equal", lambda a, b: a >= b),
    "equal": _bi("equal", lambda a, b: a == b), "not_equal": _bi("not_equal", lambda a, b: a != b),
    "maximum": _bi("maximum", _max2), "minimum": _bi("minimum", _min2),
    "fmax": _bi("fmax", _max2), "fmin": _bi("fmin", _min2),
    "bitwise_and": _bi("bitwise_and", lambda a, b: a & b), "bitwise_or": _bi("bitwise_or", lambda a, b: a | b),
    "bitwise_xor": _bi("bitwise_xor", lambda a, b: a ^ b),
    "logical_and": _bi("logical_and", lambda a, b: sb(X.And(bexpr(a), bexpr(b)))),
    "logical_or": _bi("logical_or", lambda a, b: sb(X.Or(bexpr(a), bexpr(b)))),
    "logical_xor": _bi("logical_xor", lambda a, b: sb(X.Not(X.Iff(bexpr(a), bexpr(b))))),
    "floor_divide": _bi("floor_divide", lambda a, b: _unsup("floor_divide")),
    "matmul": None,
}


def _unsup(n):
    raise Unsupported(n)


def _clip1(x, lo, hi):
    if lo is not None:
        x = BI["maximum"](x, lo)
    if hi is not None:
        x = BI["minimum"](x, hi)
    return x


def _clip(x, lo, hi):
    if lo is not None:
        x = _map(BI["maximum"], x, lo)
    if hi is not None:
        x = _map(BI["minimum"], x, hi)
    return x


def _ufunc(ufunc, method, ins, kw):
    n = ufunc.__name__
    out = kw.pop("out", None)
    kw = {k: v for k, v in kw.items() if k not in ("dtype", "casting", "order", "subok")}
    if method == "__call__":
        where_ = kw.pop("where", True)
        if where_ is not True:
            raise Unsupported("ufunc where")
        if n in UN and len(ins) == 1:
            r = _map(UN[n], ins[0])
        elif BI.get(n) is not None and len(ins) == 2:
            r = _map(BI[n], *ins)
        elif n == "clip":
            r = _clip(*ins)
        elif n == "matmul":
            r = npcall(np.dot, ins, {})
        else:
            raise Unsupported(f"ufunc {n}")
    elif method == "reduce":
        r = reduce_(n, SA.of(ins[0]), kw.get("axis", 0 if len(ins) < 2 else ins[1]), kw.get("keepdims", False))
    elif method == "accumulate":
        r = _accumulate(n, SA.of(ins[0]), kw.get("axis", 0 if len(ins) < 2 else ins[1]))
    elif method == "outer":
        a, b = SA.of(ins[0]), SA.of(ins[1])
        r = _map(BI[n], a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported(f"{n}.{method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            o[...] = r
            return o
    return r


def _red(n, a, axis, keepdims, initial=None, where=True, out=None):
    if out is not None:
        raise Unsupported("out")
    if where is not True:
        neutral = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}.get(n)
        if neutral is None:
            raise Unsupported(f"{n} with where")
        a = SA.of(_where(np.broadcast_to(SA.of(where), a.shape).view(SA), a, neutral))
    if initial is None:
        return reduce_(n, a, axis, keepdims)
    if axis is None:
        r = initial
        for x in a.flat:
            r = BI[n](r, x)
        return _full((1,) * a.ndim, r) if keepdims else r
    sh = list(a.shape)
    sh[axis] = 1
    return reduce_(n, np.concatenate([_full(sh, initial), a], axis=axis).view(SA), axis, keepdims)


def reduce_(n, a, axis=None, keepdims=False):
    init = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False, "bitwise_and": True,
            "bitwise_or": False}.get(n)
    f = BI[n]
    v = a.view(np.ndarray)
    if axis is None:
        rows, sh = v.reshape(-1, 1), ()
        ks = (1,) * v.ndim
    else:
        if isinstance(axis, tuple):
            for ax in sorted(axis, reverse=True):
                a = SA.of(reduce_(n, SA.of(a), ax, keepdims))
            return a if a.shape else a[()]
        rows = np.moveaxis(v, axis, 0)
        sh = rows.shape[1:]
        ks = tuple(1 if k == axis % v.ndim else s for k, s in enumerate(v.shape))
        rows = rows.reshape(rows.shape[0], -1)
    if rows.shape[0] == 0 and init is None:
        raise ValueError(f"zero-size array to reduction operation {n} which has no identity")
    cols = []
    for c in range(rows.shape[1]):
        col = list(rows[:, c])
        if n == "add" and col and all(isinstance(x, (SR, SB, bool, np.bool_, _REAL_INT, _REAL_FLOAT, np.number)) for x in col) \
                and _sym(*col) and all(_finite(x) for x in col):
            cols.append(SR(X.psum([poly(x) for x in col])))
            continue
        if not col:
            cols.append(init)
            continue
        r = col[0]
        if n in ("logical_and", "logical_or"):
            r = sb(bexpr(r))
        elif n == "add" and isinstance(r, (bool, np.bool_)):
            r = _REAL_INT(r)
        for x in col[1:]:
            r = f(r, x)
        cols.append(r)
    if axis is None and not keepdims:
        return cols[0]
    r = np.empty(len(cols), dtype=object)
    for k, x in enumerate(cols):
        r[k] = x
    r = r.reshape(ks if keepdims else sh).view(SA)
    return r if r.shape else r[()]


def _accumulate(n, a, axis=0):
    f = BI[n]
    v = np.moveaxis(a.view(np.ndarray), axis, 0)
    r = np.empty(v.shape, dtype=object)
    for k in range(v.shape[0]):
        if k == 0:
            r[0] = v[0]
        else:
            for i in np.ndindex(v.shape[1:]):
                r[(k,) + i] = f(r[(k - 1,) + i], v[(k,) + i])
    return np.moveaxis(r, 0, axis).view(SA)


def argbest(r, better):
    """first index of the best element; a nan wins as in numpy"""
    best = 0
    for k in range(len(r)):
        if isinstance(r[k], (_REAL_FLOAT, np.floating)) and math.isnan(r[k]):
            return k
    for k in range(1, len(r)):
        if better(r[k], r[best]):
            best = k
    if len(r) == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    return best


def _along(a, axis, f):
    a = SA.of(a)
    if axis is None:
        return f(list(a.view(np.ndarray).ravel()))
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(v.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(list(v[i]))
    if r.shape == ():
        return r[()]
    if all(isinstance(x, _REAL_INT) for x in r.flat):
        return r.astype(_REAL_INT)
    return r.view(SA)


# ------------------------------------------------------------- numpy functions
def _where(c, a=None, b=None):
    if a is None:
        m = _index1(SA.of(c))
        return np.nonzero(m)

    def f(c, x, y):
        c = bexpr(c)
        if c is True:
            return x
        if c is False:
            return y
        if not (_finite(x) and _finite(y)):
            return x if fork(c) else y
        if isinstance(x, (SB, bool, np.bool_)) and isinstance(y, (SB, bool, np.bool_)):
            return sb(X.bite(c, bexpr(x), bexpr(y)))
        return SR(X.ite(c, poly(x), poly(y)))
    return _map(f, c, a, b)


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = SA.of(xp), SA.of(fp)
    n = len(xp)

    def f(v):
        ps = [poly(v)] + [poly(q) for q in xp]
        fs = [poly(q) for q in fp]
        x, ps = ps[0], ps[1:]
        if fork(X.lt(x, ps[0])):
            return SR(poly(left) if left is not None else fs[0])
        for k in range(n - 1):
            if fork(X.lt(x, ps[k + 1]) if k < n - 2 or right is None else X.le(x, ps[k + 1])):
                return SR(fs[k] + (fs[k + 1] - fs[k]) * X.div(x - ps[k], ps[k + 1] - ps[k]))
        return SR(poly(right) if right is not None else fs[-1])
    return _map(f, x)


def _sort(a, axis=-1, kind=None, stable=None):
    a = SA.of(a)
    if axis is None:
        a, axis = a.ravel(), 0

    def f(r):
        out = []
        for x in r:
            i = len(out)
            while i > 0 and x < out[i - 1]:
                i -= 1
            out.insert(i, x)
        return out
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(v.shape, dtype=object)
    for i in np.ndindex(v.shape[:-1]):
        o = f(list(v[i]))
        for j, x in enumerate(o):
            r[i + (j,)] = x
    return np.moveaxis(r, -1, axis).view(SA)


def _argsort(a, axis=-1, kind=None, stable=None):
    if SA.of(a).ndim != 1:
        raise Unsupported("argsort of a table")
    out = []
    r = list(SA.of(a))
    for j, x in enumerate(r):
        i = len(out)
        while i > 0 and x < r[out[i - 1]]:
            i -= 1
        out.insert(i, j)
    return np.array(out, dtype=_REAL_INT)


def _searchsorted(a, v, side="left", sorter=None):
    a = SA.of(a)

    def f(x):
        k = 0
        while k < len(a) and (a[k] < x if side == "left" else a[k] <= x):
            k += 1
        return k
    r = _map(f, v)
    return r if isinstance(r, _REAL_INT) else np.array(r, dtype=_REAL_INT)


def _nanarg(sign):
    def g(a, axis=None):
        r = list(SA.of(a))
        ok = [k for k, x in enumerate(r) if _finite(x) or not math.isnan(x)]
        if not ok:
            raise ValueError("All-NaN slice encountered")
        q = [r[k] for k in ok]
        return ok[argbest(q, (lambda a, b: a < b) if sign < 0 else (lambda a, b: a > b))]
    return g


def _dot(a, b):
    a, b = SA.of(a), SA.of(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return SA.of([_dot(r, b) for r in a])
    if a.ndim == 1:
        return SA.of([_dot(a, b[:, k]) for k in range(b.shape[1])])
    return SA.of([[_dot(a[i], b[:, k]) for k in range(b.shape[1])] for i in range(a.shape[0])])


def _array(x, dtype=None, *a, copy=True, ndmin=0, order=None, subok=False):
    r = SA.of(x).copy() if not isinstance(x, (SR, SB)) else SA.of(x)
    while r.ndim < ndmin:
        r = r[None]
    return r if dtype is None else _astype(r, dtype)


def _zeros(shape, dtype=None, *a, fill=0.0, **k):
    r = np.empty(shape if not isinstance(shape, SR) else toint(shape), dtype=object)
    if dtype is not None and (_isint(dtype) or _isbool(dtype)):
        fill = bool(fill) if _isbool(dtype) else _REAL_INT(fill)
    r[...] = fill
    return r.view(SA)


def _like(fill):
    def g(a, dtype=None, *r, **k):
        a = SA.of(a)
        return _zeros(a.shape, dtype, fill=fill)
    return g


def _count_nonzero(a, axis=None):
    return reduce_("add", _astype(SA.of(a), bool), axis)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _map(lambda x, y: _map(BI["less_equal"], abs(x - y), atol + rtol * abs(y)), a, b)
    return reduce_("logical_and", SA.of(r))


def _median(a, axis=None):
    if axis is not None:
        return _along(SA.of(a), axis, _median)
    s = _sort(SA.of(a).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _average(a, axis=None, weights=None):
    a = SA.of(a)
    if weights is None:
        return a.mean(axis)
    w = SA.of(weights)
    return (a * w).sum(axis) / w.sum(axis)


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if return_index or return_inverse or return_counts:
        raise Unsupported("unique with extra outputs")
    a = SA.of(a)
    if axis is None:
        rows = [[x] for x in a.ravel()]
    elif axis == 0 and a.ndim <= 2:
        rows = [list(np.ravel(r)) if a.ndim == 2 else [r] for r in a]
    else:
        raise Unsupported("unique along an axis")
    out = []
    for r in rows:                    # sorted, without repeats; comparisons fork the path
        i, same = 0, False
        for i, q in enumerate(out + [None]):
            if q is None:
                break
            c = 0
            for x, y in zip(r, q):
                if x < y:
                    c = -1
                elif not x == y:
                    c = 1
                if c:
                    break
            if c < 0:
                break
            if c == 0:
                same = True
                break
        if not same:
            out.insert(i, r)
    return SA.of(out if axis == 0 and a.ndim == 2 else [r[0] for r in out])


def _quantile(scale):
    def g(a, q, axis=None, method="linear", interpolation=None, **k):
        if (interpolation or method) != "linear" or isinstance(q, (SR, SA)):
            raise Unsupported("quantile")
        a = SA.of(a)
        if axis is None:
            a, axis = a.ravel(), 0
        s = np.moveaxis(_sort(a, axis=axis).view(np.ndarray), axis, 0)

        def one(x):
            h = X.Fr(repr(float(x))) / scale * (len(s) - 1)
            lo = min(int(h), len(s) - 1)
            hi = min(lo + 1, len(s) - 1)
            w = SR(X.const(h - lo))
            r = s[lo] + (s[hi] - s[lo]) * w
            return r.view(SA) if isinstance(r, np.ndarray) else r
        return one(q) if np.ndim(q) == 0 else SA.of([one(x) for x in np.ravel(q)])
    return g


def _finites(a, name):
    a = SA.of(a)
    if not all(_finite(x) or isinstance(x, (SR, SB, bool, np.bool_)) for x in a.flat):
        raise Unsupported(name + " of non-finite values")
    return a


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _map(lambda x, y: _map(BI["less_equal"], abs(x - y), atol + rtol * abs(y)), a, b)


def _ptp(a, axis=None):
    a = SA.of(a)
    return a.max(axis) - a.min(axis)


NPF = {
    "where": _where, "interp": _interp, "sort": _sort, "argsort": _argsort, "searchsorted": _searchsorted,
    "nanargmin": _nanarg(-1), "nanargmax": _nanarg(1), "dot": _dot, "array": _array, "asarray": lambda x, *a, **k: SA.of(x),
    "asanyarray": lambda x, *a, **k: SA.of(x), "copy": lambda x, *a, **k: SA.of(x).copy(), "zeros": _zeros,
    "ones": lambda s, dtype=None, *a, **k: _zeros(s, dtype, fill=1.0),
    "empty": lambda s, dtype=None, *a, **k: _zeros(s, dtype, fill=0.0),
    "full": lambda s, v, dtype=None, **k: _full(s, v), "zeros_like": _like(0.0), "ones_like": _like(1.0),
    "empty_like": _like(0.0), "full_like": lambda a, v, *r, **k: _full(SA.of(a).shape, v),
    **{m: (lambda m: lambda a, *r, **k: getattr(SA.of(a), m)(*r, **k))(m) for m in (
        "sum", "prod", "max", "min", "any", "all", "mean", "std", "var", "argmax", "argmin", "cumsum")},
    "amax": lambda a, *r, **k: SA.of(a).max(*r, **k), "amin": lambda a, *r, **k: SA.of(a).min(*r, **k),
    "average": _average, "median": _median,
    "clip": lambda a, a_min=None, a_max=None, min=None, max=None: _clip(
        SA.of(a), a_min if a_min is not None else min, a_max if a_max is not None else max),
    "count_nonzero": _count_nonzero, "allclose": _allclose, "unique": _unique,
    "percentile": _quantile(100), "quantile": _quantile(1), "isclose": _isclose, "ptp": _ptp,
    "digitize": lambda x, bins, right=False: _searchsorted(bins, x, "left" if right else "right"),
    "nanmean": lambda a, *r, **k: _finites(a, "nanmean").mean(*r, **k),
    "nansum": lambda a, *r, **k: _finites(a, "nansum").sum(*r, **k),
    "nanmax": lambda a, *r, **k: _finites(a, "nanmax").max(*r, **k),
    "nanmin": lambda a, *r, **k: _finites(a, "nanmin").min(*r, **k),
    "nanstd": lambda a, *r, **k: _finites(a, "nanstd").std(*r, **k),
    "nanvar": lambda a, *r, **k: _finites(a, "nanvar").var(*r, **k),
    "nonzero": lambda a: np.nonzero(_index1(SA.of(a))), "flatnonzero": lambda a: np.flatnonzero(_index1(SA.of(a))),
    "round": lambda *a, **k: _unsup("round"),
    "isscalar": lambda x: isinstance(x, _Num) or np.isscalar(x),
}
_ALWAYS = {"array", "zeros", "ones", "empty", "full", "copy"}     # float arrays become symbolic containers


def _full(shape, v):
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = v
    return r.view(SA)


def npcall(func, args, kw):
    n = getattr(func, "__name__", str(func))
    if n in NPF:
        try:
            return NPF[n](*args, **{k: v for k, v in kw.items() if not (k == "out" and v is None)})
        except TypeError as e:
            if "unexpected keyword" in str(e) or "positional argument" in str(e):
                raise Unsupported(f"{n}: {e}")
            raise
    args = _strip(args)
    kw = _strip(kw)
    r = func(*args, **kw)
    return _wrap(r)


def _strip(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[_strip(v) for v in x])
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(v) for v in x)
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    return x


def _wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SA)
    if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
        return type(r)(_wrap(v) for v in r)
    return r


def has_sym(x, depth=0):
    if isinstance(x, (_Num, SA)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x.values())
    return isinstance(x, np.ndarray) and x.dtype == object


def _clean():
    return jax.core.trace_state_clean() if hasattr(jax.core, "trace_state_clean") else _tsc()


def _tsc():
    from jax._src.core import trace_state_clean
    return trace_state_clean()


class NPProxy:
    """numpy as the code under test sees it"""

    def __init__(self, overrides=None):
        self.__dict__["_ov"] = overrides or {}
        self.__dict__["_memo"] = {}

    def __getattr__(self, n):
        if n in self._ov:
            return self._ov[n]
        if n in self._memo:
            return self._memo[n]
        v = getattr(np, n)
        if isinstance(v, type) or not callable(v):
            return v

        if isinstance(v, np.ufunc):
            r = _UfuncProxy(v)
        else:
            def r(*a, **k):
                if not _clean():
                    return v(*a, **k)
                if has_sym(a) or has_sym(k):
                    return npcall(v, a, k)
                o = v(*_defloat(a), **_defloat(k))
                if n in _ALWAYS and isinstance(o, np.ndarray) and o.dtype.kind == "f":
                    return SA.of(o)
                return o
            r.__name__ = n
        self._memo[n] = r
        return r


def _defloat(x):
    if isinstance(x, dict):
        return {k: _defloat(v) for k, v in x.items()}
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(_defloat(v) for v in x)
    return _REAL_FLOAT if x is symfloat else _REAL_INT if x is symint else x


class _UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if _clean() and (has_sym(a)):
            return _ufunc(self.u, "__call__", a, k)
        return self.u(*a, **k)

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ("reduce", "accumulate", "outer"):
            def g(*a, **k):
                if _clean() and has_sym(a):
                    return _ufunc(self.u, n, a, k)
                return m(*a, **k)
            return g
        return m


# ------------------------------------------------------------------ jax bridge
def lower(x):
    """SR/SB/SA -> Poly / expr Bool / object array, recursively"""
    if isinstance(x, SR):
        return x.p
    if isinstance(x, SB):
        return x.b
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = np.empty(x.shape, dtype=object)
        v = x.view(np.ndarray)
        bools = x.size and all(isinstance(q, (SB, bool, np.bool_)) for q in v.flat)
        for i in np.ndindex(x.shape):
            q = v[i]
            if isinstance(q, str) or isinstance(q, bytes):
                r[i] = q
            elif bools:
                r[i] = bexpr(q)
            elif isinstance(q, (_REAL_FLOAT, np.floating)) and not math.isfinite(q):
                r[i] = jx.NonFin(_REAL_FLOAT(q))
            else:
                r[i] = poly(q) if isnum(q) else q
        return r[()] if r.shape == () else r
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[lower(v) for v in x])
    if isinstance(x, (list, tuple)):
        return type(x)(lower(v) for v in x)
    if isinstance(x, dict):
        return {k: lower(v) for k, v in x.items()}
    return x


def lift(x):
    if isinstance(x, Poly):
        return SR(x)
    if isinstance(x, jx.NonFin):
        return x.v
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = lift(x[i])
        return r.view(SA)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[lift(v) for v in x])
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("and", "not", "bv", "c"):
        return SB(x)
    if isinstance(x, (list, tuple)):
        return type(x)(lift(v) for v in x)
    if isinstance(x, dict):
        return {k: lift(v) for k, v in x.items()}
    return x


def _jitted(v):
    return hasattr(v, "lower") and hasattr(v, "__wrapped__") and callable(v) and not isinstance(v, type)


class JitProxy:
    def __init__(self, f):
        self.__dict__["f"] = f
        self.__dict__["__name__"] = getattr(f, "__name__", "jitted")

    def __call__(self, *a, **k):
        if _clean() and (has_sym(a) or has_sym(k)):
            return lift(jx.symcall(self.f, *lower(a), **lower(k)))
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.f, n)


class JnpProxy:
    """jax.numpy outside of a jitted function"""

    def __init__(self, mod):
        self.__dict__["m"] = mod
        self.__dict__["_memo"] = {}

    def __getattr__(self, n):
        if n in self._memo:
            return self._memo[n]
        v = getattr(self.m, n)
        if isinstance(v, type) or not callable(v) or n in ("dtype",) or not hasattr(v, "__call__"):
            return v
        if hasattr(v, "dtype") and not _jitted(v):      # scalar types (jnp.float32)
            return v

        def r(*a, **k):
            if not _clean():
                return v(*a, **k)
            if has_sym(a) or has_sym(k):
                stat = {p: q for p, q in k.items() if not has_sym(q)}
                dyn = {p: q for p, q in k.items() if has_sym(q)}
                ix = [i for i, q in enumerate(a) if has_sym(q)]

                def f(xs, d):
                    b = list(a)
                    for i, x in zip(ix, xs):
                        b[i] = x
                    return v(*b, **stat, **d)
                return lift(jx.symcall(f, lower([a[i] for i in ix]), lower(dyn)))
            o = v(*a, **k)
            return SA.of(np.asarray(o)) if isinstance(o, jax.Array) and o.dtype.kind == "f" else o
        r.__name__ = n
        self._memo[n] = r
        return r


_ISNAN = math.isnan


class MathProxy:
    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v):
            return v
        m = {"log10": UN["log10"], "log": UN["log"], "exp": UN["exp"], "sqrt": UN["sqrt"], "isnan": UN["isnan"],
             "isfinite": UN["isfinite"], "isinf": UN["isinf"], "fabs": UN["absolute"], "pow": BI["power"]}.get(n)

        def r(*a):
            if has_sym(a):
                if m is None:
                    raise Unsupported("math." + n)
                return m(*a)
            return v(*a)
        return r


def repo_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "diffmah" or n.startswith("diffmah.")) and
            ".tests" not in n and m is not None]


@contextlib.contextmanager
def patched(replace=(), np_overrides=None, symbolic=True, attrs=()):
    """run the repo's modules on symbolic values; replace: [(object, stand-in)] wherever the repo refers to it;
    attrs: [(owner, name, stand-in)]"""
    saved = []
    prox = NPProxy(np_overrides)
    jprox = JnpProxy(jnp)
    ids = {id(o): s for o, s in replace}
    for m in repo_modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            new = None
            if id(v) in ids:
                new = ids[id(v)]
            elif symbolic:
                if v is np:
                    new = prox
                elif v is jnp:
                    new = jprox
                elif v is math:
                    new = MathProxy()
                elif _jitted(v):
                    new = JitProxy(v)
            elif v is np and np_overrides:
                new = _Over(np, np_overrides)
            if new is not None:
                saved.append((d, k, v))
                d[k] = new
        if symbolic:
            for k, v in (("float", symfloat), ("int", symint)):
                if k not in d:
                    saved.append((d, k, None))
                    d[k] = v
    for o, n, v in attrs:
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            if isinstance(d, dict):
                if v is None and k in ("float", "int"):
                    d.pop(k, None)
                else:
                    d[k] = v
            else:
                setattr(d, k, v)


class _Over:
    def __init__(self, mod, ov):
        self.__dict__["m"], self.__dict__["ov"] = mod, ov

    def __getattr__(self, n):
        return self.ov[n] if n in self.ov else getattr(self.m, n)
