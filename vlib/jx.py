"""Symbolic execution of JAX functions.

The real function is traced with jax.make_jaxpr (so whatever the source does,
including vmap, grad and nested jit, is already expressed in primitives) and the
jaxpr is interpreted over arrays of symbolic expressions (expr.Poly / Bool).
Random primitives become nondeterministic draws: a uniform draw is an arbitrary
real in [0,1), a normal draw an arbitrary real, both named by the key path that
produced them.
"""
import math
from fractions import Fraction as Fr

import jax
from jax.interpreters import partial_eval as pe
import numpy as np
from jax import numpy as jnp
from jax.extend import core as jcore

from . import expr as X
from .expr import Poly, P

try:
    Literal = jcore.Literal
except AttributeError:  # pragma: no cover
    from jax._src.core import Literal

FUNCS = {}          # name of jitted function seen -> count (evidence)
PRIMS = {}
PIN = None
DRAWS = []          # (kind, key, atom id, call-site stack)
INTERP = X.TABLES   # registered tables: (xp tuple, fp tuple)
_INTERP_IX = {}
CALLS = []          # stack of function names during interpretation
RECORD = {}         # name -> list of (args, outs) for functions to record


class Unsupported(Exception):
    pass


def reset():
    DRAWS.clear()
    RECORD.clear()
    INTERP.clear()
    _INTERP_IX.clear()
    X.side_reset()
    X.BOUNDS.clear()


# ------------------------------------------------------------------- values
def is_sym_elem(x):
    return isinstance(x, Poly)


def obj(shape):
    return np.empty(shape, dtype=object)


def from_concrete(v, dtype=None):
    """concrete array/scalar -> internal value for its dtype kind"""
    if isinstance(v, Poly):
        a = obj(())
        a[()] = v
        return a
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v
    if isinstance(v, Key):
        a = obj(())
        a[()] = v
        return a
    a = np.asarray(v)
    if a.dtype.kind in "fV" or str(a.dtype) == "bfloat16":
        r = obj(a.shape)
        for ix in np.ndindex(a.shape):
            r[ix] = _lit_cell(a[ix])
        return r
    return a


def _lit_cell(x):
    try:
        return X.litp(x)
    except X.NonFinite:
        return NonFin(float(x))


class NonFin:
    """inf/nan constant; only usable where a selection discards it"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"NonFin({self.v})"

    def __eq__(self, o):
        return isinstance(o, NonFin) and (self.v == o.v or (self.v != self.v and o.v != o.v))

    def __hash__(self):
        return hash(("NonFin", repr(self.v)))


class Key:
    """symbolic PRNG key: a path of split/fold_in operations from a root"""
    __slots__ = ("path",)

    def __init__(self, *path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Key) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "/".join(str(x) if not isinstance(x, tuple) else "".join(map(str, x)) for x in self.path)


def is_obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def to_sym(a):
    """int/bool concrete array -> object array of Poly/bool"""
    if is_obj(a):
        return a
    a = np.asarray(a)
    r = obj(a.shape)
    for ix in np.ndindex(a.shape):
        v = a[ix]
        r[ix] = bool(v) if a.dtype == bool else X.const(int(v))
    return r


def simplify_obj(a):
    """object array of constant ints / bools -> concrete"""
    return a


def elementwise(f, *args):
    arrs = [to_sym(a) for a in args]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    r = obj(shape)
    for ix in np.ndindex(shape):
        r[ix] = f(*[a[ix] for a in arrs])
    return r


def concretize(a, kind):
    """object int/bool array whose elements are constants -> numpy array"""
    if not is_obj(a):
        return np.asarray(a)
    if kind == "b":
        if all(isinstance(x, bool) for x in a.flat):
            return np.array([x for x in a.flat], dtype=bool).reshape(a.shape)
        return None
    vals = []
    for x in a.flat:
        c = x.const() if isinstance(x, Poly) else None
        if c is None or c.denominator != 1:
            return None
        vals.append(int(c))
    return np.array(vals, dtype=np.int64).reshape(a.shape)


# ------------------------------------------------------------ element functions
def _nf(f):
    def g(*a):
        if any(isinstance(x, NonFin) for x in a):
            return _nonfin_op(f, a)
        return f(*a)
    return g


def _nonfin_op(f, a):
    vs = []
    for x in a:
        if isinstance(x, NonFin):
            vs.append(x.v)
        else:
            c = x.const() if isinstance(x, Poly) else None
            if c is None:
                nm = getattr(f, "__name__", "")
                if nm in ("_max", "_min"):
                    inf = [y for y in a if isinstance(y, NonFin)][0].v
                    other = [y for y in a if not isinstance(y, NonFin)][0]
                    if inf != inf:
                        return NonFin(inf)
                    if (nm == "_max") == (inf < 0):
                        return other
                    return NonFin(inf)
                if nm in ("_lt", "_le", "_gt", "_ge", "_eq", "_ne"):
                    vs.append(0.0)
                    continue
                if nm in ("_add", "_sub"):
                    vs.append(0.0)
                    continue
                if nm in ("_mul", "_div"):
                    return NonFin(math.nan)
                return NonFin(math.nan)
            vs.append(float(c))
    t = {"_add": lambda p, q: p + q, "_sub": lambda p, q: p - q, "_mul": lambda p, q: p * q,
         "_max": lambda p, q: max(p, q), "_min": lambda p, q: min(p, q), "_neg": lambda p: -p,
         "_lt": lambda p, q: p < q, "_le": lambda p, q: p <= q, "_gt": lambda p, q: p > q,
         "_ge": lambda p, q: p >= q, "_eq": lambda p, q: p == q, "_ne": lambda p, q: p != q,
         "_abs": lambda p: abs(p), "_exp": lambda p: math.exp(p) if p == p and p < 0 else p}
    nm = getattr(f, "__name__", "")
    if nm in t:
        r = t[nm](*vs)
        if isinstance(r, bool):
            return r
        return NonFin(r) if not math.isfinite(r) else X.litp(float(r))
    if nm == "_div":
        if math.isinf(vs[1]) and math.isfinite(vs[0]):
            return X.ZERO
        return NonFin(math.nan)
    return NonFin(math.nan)


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


def _div(a, b):
    if b.const() == 0:
        ca = a.const()
        if ca is not None and ca != 0:
            return NonFin(math.inf if ca > 0 else -math.inf)
        return NonFin(math.nan)
    return X.div(a, b)


def _neg(a):
    return -a


def _max(a, b):
    return X.pmax(a, b)


def _min(a, b):
    return X.pmin(a, b)


def _abs(a):
    return X.ite(X.ge(a, X.ZERO), a, -a)


def _exp(a):
    return X.E(a)


def _log(a):
    c = a.const()
    if c is not None and c <= 0:
        return NonFin(-math.inf if c == 0 else math.nan)
    return X.Log(a)


def _sign(a):
    return X.ite(X.gt(a, X.ZERO), X.ONE, X.ite(X.eq(a, X.ZERO), X.ZERO, X.const(-1)))


def _lt(a, b):
    return X.lt(a, b)


def _le(a, b):
    return X.le(a, b)


def _gt(a, b):
    return X.gt(a, b)


def _ge(a, b):
    return X.ge(a, b)


def _eq(a, b):
    if isinstance(a, (bool, tuple)) or isinstance(b, (bool, tuple)):
        return X.Iff(a, b)
    return X.eq(a, b)


def _ne(a, b):
    return X.Not(_eq(a, b))


def _and(a, b):
    if isinstance(a, Poly):
        raise Unsupported("bitwise and on symbolic ints")
    return X.And(a, b)


def _or(a, b):
    if isinstance(a, Poly):
        raise Unsupported("bitwise or on symbolic ints")
    return X.Or(a, b)


def _xor(a, b):
    return X.Not(X.Iff(a, b))


def _sel2(c, f, t):
    """select with nonfinite pruning"""
    if c is True:
        return t
    if c is False:
        return f
    if isinstance(f, (bool, tuple)) or isinstance(t, (bool, tuple)):
        return X.bite(c, t, f)
    if isinstance(t, NonFin) or isinstance(f, NonFin):
        if t == f:
            return t
        # keep the finite branch; record that the condition must select it
        if isinstance(t, NonFin) and isinstance(f, NonFin):
            return t
        fin = f if isinstance(t, NonFin) else t
        need = X.Not(c) if isinstance(t, NonFin) else c
        X.side("select-finite", need)
        return fin
    if isinstance(t, Key) or isinstance(f, Key):
        if t == f:
            return t
        raise Unsupported("select on keys")
    return X.ite(c, t, f)


def _exp2(a):
    return X.power(X.const(2), a)


def _isfinite(a):
    return not isinstance(a, NonFin)


def _erf_inv(a):
    if a.const() == 0:
        return X.ZERO
    return X.uf("erf_inv", a)


def _erf(a):
    return X.uf("erf", a)


def _erfc(a):
    return X.ONE - X.uf("erf", a)


def _floor(a):
    c = a.const()
    if c is not None:
        return X.const(math.floor(c))
    k = PIN(a) if PIN is not None else None       # the floor, where the assumptions determine it
    return X.const(k) if k is not None else X.uf("floor", a)


def _ceil(a):
    return -_floor(-a)


ELEM = {
    "add": _add, "add_any": _add, "sub": _sub, "mul": _mul, "div": _div, "neg": _neg,
    "max": _max, "min": _min, "abs": _abs, "exp": _exp, "log": _log, "sign": _sign,
    "logistic": X.L, "tanh": X.tanh, "sqrt": X.sqrt, "exp2": _exp2,
    "rsqrt": lambda a: X.div(X.ONE, X.sqrt(a)),
    "log1p": lambda a: _log(X.ONE + a), "expm1": lambda a: X.E(a) - X.ONE,
    "square": lambda a: a * a,
    "lt": _lt, "le": _le, "gt": _gt, "ge": _ge, "eq": _eq, "ne": _ne,
    "and": _and, "or": _or, "xor": _xor, "not": lambda a: X.Not(a),
    "is_finite": None, "erf_inv": _erf_inv, "erf": _erf, "erfc": _erfc, "floor": _floor, "ceil": _ceil,
    "pow": lambda a, b: X.power(a, b),
    "atan2": None,
}
ELEM = {k: v for k, v in ELEM.items() if v is not None}

STRUCT = {"broadcast_in_dim", "reshape", "squeeze", "transpose", "slice", "rev",
          "expand_dims", "concatenate", "pad", "copy", "copy_p", "split", "unstack", "stack"}


def _pool(arrs):
    pool = []
    ixs = []
    for a in arrs:
        a = to_sym(a)
        n = len(pool)
        pool.extend(a.flat)
        ixs.append(np.arange(n, n + a.size, dtype=np.int32).reshape(a.shape))
    return pool, ixs


def _take(pool, ix):
    ix = np.asarray(ix)
    r = obj(ix.shape)
    for k in np.ndindex(ix.shape):
        r[k] = pool[int(ix[k])]
    return r


def leaves_of_int(p):
    """symbolic int Poly -> list of (cond, int) covering all cases"""
    c = p.const()
    if c is not None:
        return [(True, int(c))]
    conds = X.ite_conds([p])
    if not conds:
        raise Unsupported(f"symbolic index {p}")
    cd = conds[0]
    out = []
    for v in (True, False):
        q = X.subst(p, conds=lambda b: v if b == cd else (not v if b == X.Not(cd) else None))
        b = cd if v else X.Not(cd)
        for c2, i in leaves_of_int(q):
            c3 = X.And(b, c2)
            if c3 is not False:
                out.append((c3, i))
    # merge equal ints
    d = {}
    for c, i in out:
        d[i] = X.Or(d[i], c) if i in d else c
    return [(c, i) for i, c in d.items()]


def merge_cases(cases):
    """[(cond, array)] -> array of ites"""
    base = cases[-1][1]
    r = to_sym(base)
    for c, a in reversed(cases[:-1]):
        a = to_sym(a)
        r = elementwise(lambda x, y: _sel2(c, y, x), a, r) if False else elementwise(
            lambda x, y: _sel2(c, y, x), a, r)
    return r


def bind(eqn, args):
    p = eqn.primitive
    r = p.bind(*args, **eqn.params)
    return list(r) if p.multiple_results else [r]


def kind_of(v):
    dt = v.aval.dtype
    if jnp.issubdtype(dt, jax.dtypes.prng_key):
        return "k"
    if jnp.issubdtype(dt, jnp.bool_):
        return "b"
    if jnp.issubdtype(dt, jnp.integer):
        return "i"
    return "f"


STUBS = {}


def stub(*names):
    def deco(f):
        for n in names:
            STUBS[n] = f
        return f
    return deco


@stub("_uniform")
def _st_uniform(interp, eqn, args):
    key, lo, hi = args
    shape = eqn.outvars[0].aval.shape
    return [draw("U", key, shape, lambda u, ix: _bc(lo, shape, ix) + (
        _bc(hi, shape, ix) - _bc(lo, shape, ix)) * u)]


@stub("_normal")
def _st_normal(interp, eqn, args):
    shape = eqn.outvars[0].aval.shape
    return [draw("Z", args[0], shape, lambda z, ix: z)]


def _bc(a, shape, ix):
    a = to_sym(a)
    return np.broadcast_to(a, shape)[ix]


def draw(kind, key, shape, fn):
    key = np.asarray(key, dtype=object) if not is_obj(key) else key
    kshape = key.shape
    r = obj(shape)
    assert shape[:len(kshape)] == kshape, (shape, kshape)
    for ix in np.ndindex(shape):
        k = key[ix[:len(kshape)]]
        sub = ix[len(kshape):]
        name = f"{kind}<{k}>" + (str(list(sub)) if sub else "")
        v = X.var(name)
        (a, _), = next(iter(v.t))
        rec = (kind, k, sub, a, tuple(CALLS))
        DRAWS.append(rec)
        r[ix] = fn(v, ix)
    return r


@stub("_interp", "interp")
def _st_interp(interp, eqn, args):
    if len(args) != 3:
        raise Unsupported("interp with left/right/period")
    x, xp, fp = [to_sym(a) for a in args]
    shape = eqn.outvars[0].aval.shape
    r = obj(shape)
    n = xp.shape[-1]
    bshape = shape

    def row(t, ix):
        if t.ndim == 1:
            return tuple(t)
        return tuple(t[ix[:t.ndim - 1]])
    # a batched call has xp/fp of shape batch+(n,), x of shape batch or batch+rest
    for ix in np.ndindex(shape):
        xx = np.broadcast_to(x, bshape)[ix] if x.ndim == 0 or x.shape == shape else x[ix[:x.ndim]]
        r[ix] = interp_val(xx, row(xp, ix), row(fp, ix))
    return [r]


def interp_val(x, xp, fp):
    key = (xp, fp)
    t = _INTERP_IX.get(key)
    if t is None:
        t = len(INTERP)
        INTERP.append((xp, fp))
        _INTERP_IX[key] = t
    return X.uf("interp", t, x)


@stub("cdf")
def _st_cdf(interp, eqn, args):
    """jax.scipy.stats.truncnorm.cdf(x, a, b, loc, scale), by its definition
    (Phi(z)-Phi(a))/(Phi(b)-Phi(a)); Phi is the standard normal CDF"""
    if len(args) not in (3, 5) or len(eqn.outvars) != 1:
        return None
    x, a, b, loc, scale = [to_sym(v) for v in _locscale(args)]

    def f(x, a, b, loc, scale):
        z = X.div(x - loc, scale)
        pa, pb = X.uf("Phi", a), X.uf("Phi", b)
        v = X.div(X.uf("Phi", z) - pa, pb - pa)
        return X.ite(X.le(z, a), X.ZERO, X.ite(X.ge(z, b), X.ONE, v))
    osh = tuple(eqn.outvars[0].aval.shape)
    return [elementwise(_nf(f), *[_lead(v, osh) for v in (x, a, b, loc, scale)])]


@stub("logpdf")
def _st_logpdf(interp, eqn, args):
    """jax.scipy.stats.truncnorm.logpdf(x, a, b, loc, scale) on its support, by its definition"""
    if len(args) not in (3, 5) or len(eqn.outvars) != 1:
        return None
    x, a, b, loc, scale = [to_sym(v) for v in _locscale(args)]

    def f(x, a, b, loc, scale):
        z = X.div(x - loc, scale)
        X.side("support", X.And(X.le(a, z), X.le(z, b)))
        mass = X.uf("Phi", b) - X.uf("Phi", a)
        return -z * z * X.const(Fr(1, 2)) - X.Log(scale) - X.Log(mass) - HALF_LOG_2PI
    osh = tuple(eqn.outvars[0].aval.shape)
    return [elementwise(_nf(f), *[_lead(v, osh) for v in (x, a, b, loc, scale)])]


def _locscale(args):
    """(x, a, b) with the default location and scale, or all five"""
    return args if len(args) == 5 else [*args, from_concrete(X.ZERO), from_concrete(X.ONE)]


HALF_LOG_2PI = X.const(Fr(0.9189385332046727).limit_denominator(10 ** 12))


def _lead(v, osh):
    """align a vmapped operand (batch axes leading) with the output shape"""
    if v.ndim == 0 or v.ndim == len(osh):
        return v
    if v.shape == osh[:v.ndim] and v.shape != osh[-v.ndim:]:
        return v.reshape(v.shape + (1,) * (len(osh) - v.ndim))
    if v.shape == osh[-v.ndim:] and v.shape != osh[:v.ndim]:
        return v
    raise NotImplementedError("ambiguous batching")


class Interp:
    def __init__(self, stubs=None, no_stub=()):
        self.stubs = dict(STUBS)
        for n in no_stub:
            self.stubs.pop(n, None)
        if stubs:
            self.stubs.update(stubs)

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return from_concrete(np.asarray(v.val) if not hasattr(v.val, "dtype") else v.val)
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if is_obj(o) and o.shape != tuple(v.aval.shape):
                    raise AssertionError((eqn.primitive.name, o.shape, v.aval.shape))
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def sub(self, jx, args):
        if hasattr(jx, "consts"):
            return self.run(jx.jaxpr, [from_concrete(np.asarray(c)) if not _iskeyarr(c) else c
                                       for c in jx.consts], args)
        return self.run(jx, [], args)

    def eqn(self, eqn, ins):
        n = eqn.primitive.name
        PRIMS[n] = PRIMS.get(n, 0) + 1
        pr = eqn.params
        if n in ("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_lin"):
            name = pr.get("name", n)
            jx = pr.get("jaxpr") or pr.get("call_jaxpr")
            FUNCS[name] = FUNCS.get(name, 0) + 1
            if name in self.stubs:
                r = self.stubs[name](self, eqn, ins)
                if r is not None:
                    return r
            CALLS.append(name)
            try:
                out = self.sub(jx, ins)
            finally:
                CALLS.pop()
            if name in RECORD:
                RECORD[name].append((ins, out))
            return out
        if n in ("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr"):
            jx = pr.get("call_jaxpr") or pr.get("fun_jaxpr") or pr.get("jaxpr")
            return self.sub(jx, ins)
        if n == "call_hi_primitive":
            return self.hi(eqn, ins)
        # all-concrete integer/bool arithmetic: run the real primitive
        outk = [kind_of(v) for v in eqn.outvars]
        if all(not is_obj(a) for a in ins) and all(k in "ib" for k in outk):
            return [np.asarray(r) for r in bind(eqn, [jnp.asarray(_cast(a, v)) for a, v in
                                                      zip(ins, eqn.invars)])]
        if n in ELEM:
            if n in ("eq", "ne", "lt", "le", "gt", "ge") or outk[0] in "fi":
                ins = [to_sym(a) for a in ins]
            return [elementwise(_nf(ELEM[n]), *ins)]
        if n in STRUCT:
            pool, ixs = _pool(ins)
            return [_take(pool, r) for r in bind(eqn, [jnp.asarray(i) for i in ixs])]
        m = getattr(self, "p_" + n.replace("-", "_"), None)
        if m is None:
            raise Unsupported(f"primitive {n} in {CALLS}")
        return m(eqn, ins)

    # ---- individual primitives
    def p_integer_pow(self, e, i):
        return [elementwise(_nf(lambda a: X.power(a, X.const(e.params["y"]))), i[0])]

    def p_is_finite(self, e, i):
        return [elementwise(_isfinite, i[0])]

    def p_stop_gradient(self, e, i):
        return i

    def p_optimization_barrier(self, e, i):
        return i

    def p_convert_element_type(self, e, i):
        a = i[0]
        src, dst = kind_of(e.invars[0]) if not isinstance(e.invars[0], Literal) else None, kind_of(e.outvars[0])
        if not is_obj(a):
            a = np.asarray(a)
            if dst == "f":
                return [to_sym(a.astype(np.int64) if a.dtype == bool else a)]
            return [a.astype(e.params["new_dtype"])]
        if a.size and isinstance(a.flat[0], (bool, tuple)) and dst in "fi":
            return [elementwise(lambda b: X.ite(b, X.ONE, X.ZERO), a)]
        if dst == "b" and a.size and isinstance(a.flat[0], Poly):
            return [elementwise(lambda p: X.ne(p, X.ZERO), a)]
        if dst == "i" and src == "f":
            def tr(p):
                c = p.const()
                if c is not None:
                    return X.const(int(c))
                if all(x.denominator == 1 for x in p.t.values()) and all(
                        X.ATOMS[q].kind == "ite" for q in X.poly_atoms(p)):
                    return p
                return X.uf("trunc", p)
            r = elementwise(tr, a)
            cc = concretize(r, "i")
            return [cc.astype(e.params["new_dtype"]) if cc is not None else r]
        return [a]

    def p_select_n(self, e, i):
        c, cases = i[0], i[1:]
        if len(cases) != 2:
            cs = [to_sym(x) for x in cases]
            r = cs[-1]
            c = np.broadcast_to(to_sym(c), r.shape)
            for k in range(len(cs) - 2, -1, -1):
                eqk = elementwise(lambda p, k=k: X.eq(p, X.const(k)), c)
                r = elementwise(_sel2, eqk, r, cs[k])
            return [r]
        f, t = to_sym(cases[0]), to_sym(cases[1])
        c = np.broadcast_to(to_sym(c), f.shape)
        if c.size and isinstance(c.flat[0], Poly):
            c = elementwise(lambda p: X.ne(p, X.ZERO), c)
        return [elementwise(_sel2, c, f, t)]

    def p_clamp(self, e, i):
        lo, x, hi = i
        return [elementwise(_nf(lambda l, v, h: X.pmin(X.pmax(v, l), h)), lo, x, hi)]

    def p_iota(self, e, i):
        r = bind(e, [])[0]
        return [from_concrete(np.asarray(r))]

    def _reduce(self, e, a, f, init):
        axes = e.params["axes"]
        a = to_sym(a)
        keep = [k for k in range(a.ndim) if k not in axes]
        out = obj(tuple(a.shape[k] for k in keep))
        t = np.transpose(a, keep + list(axes)).reshape(out.shape + (-1,))
        for ix in np.ndindex(out.shape):
            v = init
            for x in t[ix]:
                v = x if v is None else f(v, x)
            out[ix] = v
        return [out]

    def p_reduce_sum(self, e, i):
        a = to_sym(i[0])
        axes = e.params["axes"]
        keep = [k for k in range(a.ndim) if k not in axes]
        out = obj(tuple(a.shape[k] for k in keep))
        t = np.transpose(a, keep + list(axes)).reshape(out.shape + (-1,))
        for ix in np.ndindex(out.shape):
            if any(isinstance(x, NonFin) for x in t[ix]):
                v = X.ZERO
                for x in t[ix]:
                    v = _nf(_add)(v, x)
                out[ix] = v
            else:
                out[ix] = X.psum(list(t[ix]))
        return [out]

    def p_reduce_prod(self, e, i):
        return self._reduce(e, i[0], _nf(_mul), X.ONE)

    def p_reduce_max(self, e, i):
        return self._reduce(e, i[0], _nf(_max), None)

    def p_reduce_min(self, e, i):
        return self._reduce(e, i[0], _nf(_min), None)

    def p_reduce_and(self, e, i):
        return self._reduce(e, i[0], _and, True)

    def p_reduce_or(self, e, i):
        return self._reduce(e, i[0], _or, False)

    def _arg(self, e, a, better):
        (ax,) = e.params["axes"]
        a = to_sym(a)
        t = np.moveaxis(a, ax, -1)
        out = obj(t.shape[:-1])
        for ix in np.ndindex(out.shape):
            row = t[ix]
            best, bi = row[0], X.ZERO
            for k in range(1, len(row)):
                c = better(row[k], best)
                bi = X.ite(c, X.const(k), bi)
                best = _sel2(c, best, row[k])
            out[ix] = bi
        return [out]

    def p_argmax(self, e, i):
        def better(x, y):
            if isinstance(x, (bool, tuple)):
                return X.And(x, X.Not(y))
            return X.gt(x, y)
        return self._arg(e, i[0], better)

    def p_argmin(self, e, i):
        def better(x, y):
            if isinstance(x, (bool, tuple)):
                return X.And(y, X.Not(x))
            return X.lt(x, y)
        return self._arg(e, i[0], better)

    def _cum(self, e, a, f):
        ax, rv = e.params["axis"], e.params["reverse"]
        a = np.moveaxis(to_sym(a), ax, -1)
        if rv:
            a = a[..., ::-1]
        out = obj(a.shape)
        for ix in np.ndindex(a.shape[:-1]):
            v = None
            for k in range(a.shape[-1]):
                v = a[ix + (k,)] if v is None else f(v, a[ix + (k,)])
                out[ix + (k,)] = v
        if rv:
            out = out[..., ::-1]
        return [np.moveaxis(out, -1, ax)]

    def p_cumsum(self, e, i):
        return self._cum(e, i[0], _nf(_add))

    def p_cumprod(self, e, i):
        return self._cum(e, i[0], _nf(_mul))

    def p_cummax(self, e, i):
        return self._cum(e, i[0], _nf(_max))

    def p_cummin(self, e, i):
        return self._cum(e, i[0], _nf(_min))

    def p_dot_general(self, e, i):
        (lc, rc), (lb, rb) = e.params["dimension_numbers"]
        a, b = to_sym(i[0]), to_sym(i[1])
        lf = [k for k in range(a.ndim) if k not in lc and k not in lb]
        rf = [k for k in range(b.ndim) if k not in rc and k not in rb]
        A = np.transpose(a, list(lb) + lf + list(lc))
        B = np.transpose(b, list(rb) + rf + list(rc))
        nb, nl, nr = len(lb), len(lf), len(rf)
        bs, ls, rs = A.shape[:nb], A.shape[nb:nb + nl], B.shape[nb:nb + nr]
        A = A.reshape(bs + ls + (-1,))
        B = B.reshape(bs + rs + (-1,))
        out = obj(bs + ls + rs)
        for bi in np.ndindex(bs):
            for li in np.ndindex(ls):
                for ri in np.ndindex(rs):
                    out[bi + li + ri] = X.psum([_nfm(x, y) for x, y in zip(A[bi + li], B[bi + ri])])
        return [out]

    def p_cholesky(self, e, i):
        a = to_sym(i[0])
        n = a.shape[-1]
        out = obj(a.shape)
        for bi in np.ndindex(a.shape[:-2]):
            m = a[bi]
            ent = tuple(m[r, c] for r in range(n) for c in range(r + 1))
            for r in range(n):
                for c in range(n):
                    out[bi + (r, c)] = X.ZERO if c > r else X.uf(f"chol{n}_{r}{c}", *ent, pos=(r == c))
            X.side("cholesky", ("bv", ("spd", tuple(m.flat))))
        return [out]

    def p_dynamic_slice(self, e, i):
        op = to_sym(i[0])
        return self._dyn(e, op, i[1:], lambda ix, idx: bind(e, [jnp.asarray(ix)] + [
            jnp.asarray(k, dtype=jnp.int32) for k in idx])[0])

    def _dyn(self, e, op, idx, f):
        pool, (ix,) = _pool([op])
        cs = [concretize(to_sym(k), "i") for k in idx]
        if all(c is not None for c in cs):
            return [_take(pool, f(ix, cs))]
        cases = [(True, [])]
        for k, c in zip(idx, cs):
            lv = [(True, c)] if c is not None else [
                (b, np.array(v)) for b, v in leaves_of_int(to_sym(k)[()])]
            cases = [(X.And(a, b), vs + [v]) for a, vs in cases for b, v in lv]
        cases = [(a, _take(pool, f(ix, vs))) for a, vs in cases if a is not False]
        return [merge_cases(cases)]

    def p_dynamic_update_slice(self, e, i):
        pool, (a, b) = _pool(i[:2])
        idx = [concretize(to_sym(k), "i") for k in i[2:]]
        if any(c is None for c in idx):
            raise Unsupported("dynamic_update_slice with symbolic index")
        return [_take(pool, bind(e, [jnp.asarray(a), jnp.asarray(b)] + [
            jnp.asarray(k, dtype=jnp.int32) for k in idx])[0])]

    def p_gather(self, e, i):
        op, ind = to_sym(i[0]), i[1]
        pool, (ix,) = _pool([op])
        ix = ix + 1          # 0 marks fill
        pool = [X.ZERO] + pool
        c = concretize(ind, "i") if is_obj(ind) else np.asarray(ind)

        def one(cc):
            r = np.asarray(bind(e, [jnp.asarray(ix), jnp.asarray(cc, dtype=jnp.int32)])[0])
            bad = (r < 0) | (r >= len(pool))
            if bad.any():
                out = _take(pool, np.where(bad, 0, r))
                for k in zip(*np.nonzero(bad)):
                    out[k] = NonFin(math.nan)
                return out
            return _take(pool, r)
        if c is not None:
            return [one(c)]
        cases = [(True, [])]
        for el in ind.flat:
            cases = [(X.And(a, b), vs + [v]) for a, vs in cases for b, v in leaves_of_int(el)]
        cases = [(a, one(np.array(vs).reshape(ind.shape))) for a, vs in cases if a is not False]
        return [merge_cases(cases)]

    def p_scatter(self, e, i):
        return self._scatter(e, i)

    def p_scatter_add(self, e, i):
        def one(cc):
            a, u = to_sym(i[0]), to_sym(i[2])
            dt = e.outvars[0].aval.dtype
            eye = np.eye(u.size).astype(dt).reshape((u.size,) + u.shape)
            z, cj = jnp.zeros(a.shape, dt), jnp.asarray(cc, dtype=jnp.int32)
            m = np.asarray(jax.vmap(lambda v: bind(e, [z, cj, v])[0])(jnp.asarray(eye)))
            out = a.copy()
            for k in zip(*np.nonzero(m)):
                out[k[1:]] = _nf(_add)(out[k[1:]], u.reshape(-1)[k[0]])
            return out
        return [self._by_index(i[1], one)]

    def _by_index(self, ind, one):
        """a function of an integer array, by cases on its symbolic entries"""
        c = concretize(to_sym(ind), "i") if is_obj(ind) else np.asarray(ind)
        if c is not None:
            return one(c)
        cases = [(True, [])]
        for el in ind.flat:
            cases = [(X.And(a, b), vs + [v]) for a, vs in cases for b, v in leaves_of_int(el)]
        return merge_cases([(a, one(np.array(vs).reshape(ind.shape))) for a, vs in cases if a is not False])

    def _scatter(self, e, i):
        pool, (a, u) = _pool([i[0], i[2]])

        def one(c):
            return _take(pool, bind(e, [jnp.asarray(a), jnp.asarray(c, dtype=jnp.int32), jnp.asarray(u)])[0])
        return [self._by_index(i[1], one)]

    def p_sort(self, e, i):
        ax = e.params["dimension"]
        if len(i) != 1:
            if e.params["num_keys"] != 1:
                raise Unsupported("sort by several keys")
            ops = [np.moveaxis(to_sym(v), ax, -1).copy() for v in i]
            n = ops[0].shape[-1]
            for ix in np.ndindex(ops[0].shape[:-1]):
                rows = [list(o[ix]) for o in ops]
                for r in range(n):
                    for k in range(r % 2, n - 1, 2):
                        swap = X.gt(rows[0][k], rows[0][k + 1])
                        for row in rows:
                            x, y = row[k], row[k + 1]
                            row[k], row[k + 1] = _sel2(swap, x, y), _sel2(swap, y, x)
                for o, row in zip(ops, rows):
                    for k in range(n):
                        o[ix + (k,)] = row[k]
            return [np.moveaxis(o, -1, ax) for o in ops]
        a = np.moveaxis(to_sym(i[0]), ax, -1).copy()
        n = a.shape[-1]
        for ix in np.ndindex(a.shape[:-1]):
            row = list(a[ix])
            # odd-even transposition network
            for r in range(n):
                for k in range(r % 2, n - 1, 2):
                    x, y = row[k], row[k + 1]
                    row[k], row[k + 1] = X.pmin(x, y), X.pmax(x, y)
            for k in range(n):
                a[ix + (k,)] = row[k]
        return [np.moveaxis(a, -1, ax)]

    def p_while(self, e, i):
        pr = e.params
        nc, nb = pr["cond_nconsts"], pr["body_nconsts"]
        cc, bc, st = i[:nc], i[nc:nc + nb], i[nc + nb:]
        for _ in range(300):
            (c,) = self.sub(pr["cond_jaxpr"], list(cc) + list(st))
            c = concretize(to_sym(c), "b")
            if c is None:
                raise Unsupported("while with symbolic condition")
            if not c.all():
                return list(st)
            st = self.sub(pr["body_jaxpr"], list(bc) + list(st))
        raise Unsupported("while bound")

    def p_scan(self, e, i):
        pr = e.params
        nc, nk = pr["num_consts"], pr["num_carry"]
        consts, carry, xs = i[:nc], list(i[nc:nc + nk]), i[nc + nk:]
        n = pr["length"]
        ys = []
        order = range(n - 1, -1, -1) if pr["reverse"] else range(n)
        for k in order:
            out = self.sub(pr["jaxpr"], list(consts) + carry + [x[k] if is_obj(x) else np.asarray(x)[k]
                                                                for x in xs])
            carry = out[:nk]
            ys.append(out[nk:])
        if pr["reverse"]:
            ys.reverse()
        stacked = []
        for j in range(len(ys[0]) if ys else 0):
            arr = [to_sym(np.asarray(y[j], dtype=object) if is_obj(y[j]) else y[j]) for y in ys]
            r = obj((n,) + arr[0].shape)
            for k in range(n):
                r[k] = arr[k]
            stacked.append(r)
        return carry + stacked

    def p_cond(self, e, i):
        ix, ops = i[0], i[1:]
        br = e.params["branches"]
        s = to_sym(ix)[()]
        if isinstance(s, (bool, tuple)):
            s = X.ite(s, X.ONE, X.ZERO)
        lv = leaves_of_int(s)
        outs = [(c, self.sub(br[min(max(v, 0), len(br) - 1)], ops)) for c, v in lv]
        if len(outs) == 1:
            return outs[0][1]
        return [merge_cases([(c, o[j]) for c, o in outs]) for j in range(len(outs[0][1]))]

    # ---- randomness
    def p_random_wrap(self, e, i):
        a = i[0]
        if is_obj(a) and a.size and isinstance(a.flat[0], RawKey):
            t = a.reshape(a.shape[:-1] + (2,))
            r = obj(a.shape[:-1])
            for ix in np.ndindex(r.shape):
                if t[ix + (0,)].key != t[ix + (1,)].key or (t[ix + (0,)].w, t[ix + (1,)].w) != (0, 1):
                    raise Unsupported("mixed raw key words")
                r[ix] = t[ix + (0,)].key
            return [r]
        if not is_obj(a):
            a = np.asarray(a)
            r = obj(a.shape[:-1])
            for ix in np.ndindex(r.shape):
                r[ix] = Key("raw", tuple(int(x) for x in a[ix]))
            return [r]
        raise Unsupported("random_wrap")

    def p_random_unwrap(self, e, i):
        a = i[0]
        r = obj(a.shape + (2,))
        for ix in np.ndindex(a.shape):
            r[ix + (0,)], r[ix + (1,)] = RawKey(a[ix], 0), RawKey(a[ix], 1)
        return [r]

    def p_random_split(self, e, i):
        a = i[0]
        shp = tuple(e.params["shape"])
        r = obj(a.shape + shp)
        for ix in np.ndindex(a.shape):
            for j in np.ndindex(shp):
                r[ix + j] = Key(*a[ix].path, ("s",) + j)
        return [r]

    def p_random_fold_in(self, e, i):
        a, d = i
        d = np.broadcast_to(to_sym(d), np.broadcast_shapes(a.shape, np.shape(d)))
        r = obj(d.shape)
        aa = np.broadcast_to(a, d.shape)
        for ix in np.ndindex(d.shape):
            r[ix] = Key(*aa[ix].path, ("f", str(d[ix])))
        return [r]

    def p_random_bits(self, e, i):
        raise Unsupported(f"random_bits outside uniform/normal in {CALLS}")

    def hi(self, e, i):
        nm = type(list(e.params.values())[0]).__name__ if e.params else ""
        hp = [v for v in e.params.values() if type(v).__name__ == "SearchSorted"]
        if not hp:
            raise Unsupported(f"hi primitive {e.params}")
        p = hp[0]
        if p.dimension != 0 or p.batch_dims != 0:
            raise Unsupported("batched searchsorted")
        tab, x = to_sym(i[0]), to_sym(i[1])
        for k in range(len(tab) - 1):
            X.side("searchsorted-sorted", X.le(tab[k], tab[k + 1]))
        op = X.le if p.side == "right" else X.lt

        def f(v):
            r = X.const(len(tab))
            for k in range(len(tab) - 1, -1, -1):
                r = X.ite(op(tab[k], v), r, X.const(k))
            return r
        return [elementwise(f, x)]


class RawKey:
    __slots__ = ("key", "w")

    def __init__(self, key, w):
        self.key, self.w = key, w


def _nfm(x, y):
    if x.const() == 0 or y.const() == 0 if isinstance(x, Poly) and isinstance(y, Poly) else False:
        return X.ZERO
    return _nf(_mul)(x, y)


def _cast(a, v):
    return np.asarray(a).astype(v.aval.dtype) if hasattr(v, "aval") else a


def _iskeyarr(c):
    return hasattr(c, "dtype") and jnp.issubdtype(c.dtype, jax.dtypes.prng_key)


# ---------------------------------------------------------------------- driver
_KEYDT = None


def keydtype():
    global _KEYDT
    if _KEYDT is None:
        _KEYDT = jax.random.key(0).dtype
    return _KEYDT


def _aval(leaf):
    if isinstance(leaf, Poly):
        return jax.ShapeDtypeStruct((), jnp.float32)
    if isinstance(leaf, Key):
        return jax.ShapeDtypeStruct((), keydtype())
    if is_obj(leaf):
        f = leaf.flat[0] if leaf.size else X.ZERO
        if isinstance(f, (bool, tuple)):
            dt = jnp.bool_
        elif isinstance(f, Key):
            dt = keydtype()
        else:
            dt = jnp.float32
        return jax.ShapeDtypeStruct(leaf.shape, dt)
    return leaf


def _isleaf(x):
    return isinstance(x, (Poly, Key)) or is_obj(x) or x is None and False


def symcall(f, *args, stubs=None, no_stub=(), dce=False, **kw):
    """call f(*args) symbolically; leaves of args may be Poly, object arrays of
    Poly, Key, or concrete numbers.  Returns the output pytree with object
    arrays (0-d arrays unwrapped) as leaves."""
    leaves, tree = jax.tree_util.tree_flatten((args, kw), is_leaf=_isleaf)
    avals = [_aval(v) for v in leaves]
    out_tree = []

    def flat(*ls):
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        o = f(*a, **k)
        ol, ot = jax.tree_util.tree_flatten(o)
        out_tree.append(ot)
        return ol
    jx = jax.make_jaxpr(flat)(*avals)
    body = jx.jaxpr
    if dce:
        # drop what the results do not depend on (e.g. the backward pass when only the value is wanted)
        body, _ = pe.dce_jaxpr(body, [True] * len(body.outvars), instantiate=True)
    it = Interp(stubs, no_stub)
    vals = []
    for v in leaves:
        vals.append(from_concrete(v))
    outs = it.run(body, [from_concrete(np.asarray(c)) if not _iskeyarr(c) else c for c in jx.consts], vals)
    outs = [to_sym(o) for o in outs]
    outs = [o[()] if o.shape == () else o for o in outs]
    return jax.tree_util.tree_unflatten(out_tree[0], outs)


def vec(name, n, pos=False):
    r = obj((n,))
    for k in range(n):
        r[k] = X.var(f"{name}{k}", pos)
    return r


def svars(nt, pos=(), prefix="", suffix=""):
    """namedtuple type -> instance of fresh variables"""
    return nt(*[X.var(prefix + f + suffix, f in pos) for f in nt._fields])
