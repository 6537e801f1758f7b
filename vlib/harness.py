"""Scenario harness.

A scenario is a Python function sc(c) that introduces symbolic inputs
(c.real, c.vec, ...), assumptions (c.assume), calls real functions of /repo
(c.call) and states obligations (c.check).  It is executed once symbolically;
every obligation is decided by the SMT solver.  A counterexample is replayed by
executing the same scenario on the real code with the solver's numbers; only a
reproduced counterexample is reported.
"""
import json
import math
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402
import jax  # noqa: E402
from jax import numpy as jnp  # noqa: E402

from . import expr as X  # noqa: E402
from . import smt  # noqa: E402
from . import jx  # noqa: E402
from . import symnp as SN  # noqa: E402
from .expr import Poly, ATOMS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


# ------------------------------------------------------------------ goal DSL
class G:
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


def _elems(a, b):
    a = a if isinstance(a, np.ndarray) else _arr(a)
    b = b if isinstance(b, np.ndarray) else _arr(b)
    sh = np.broadcast_shapes(a.shape, b.shape)
    a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
    return [(a[i], b[i]) for i in np.ndindex(sh)]


def _arr(x):
    if isinstance(x, Poly) or isinstance(x, tuple) and x and isinstance(x[0], str):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)):
        xs = [_arr(v) for v in x]
        r = np.empty((len(xs),) + xs[0].shape, dtype=object)
        for k, v in enumerate(xs):
            r[k] = v
        return r
    return np.asarray(x)


def le(a, b):
    return And(*[G("le", x, y) for x, y in _elems(a, b)])


def lt(a, b):
    return And(*[G("lt", x, y) for x, y in _elems(a, b)])


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return And(*[G("eq", x, y) for x, y in _elems(a, b)])


def ne(a, b):
    return Not(eq(a, b))


def And(*g):
    g = [x for x in g if x is not True]
    return g[0] if len(g) == 1 else G("and", *g)


def Or(*g):
    return g[0] if len(g) == 1 else G("or", *g)


def Not(g):
    return G("not", g)


def Implies(p, q):
    return G("imp", p, q)


def Iff(p, q):
    return And(Implies(p, q), Implies(q, p))


def B(b):
    """a boolean output of the code (scalar or array: conjunction)"""
    a = _arr(b)
    return And(*[G("b", a[i]) for i in np.ndindex(a.shape)])


def within(x, lo, hi):
    return And(le(lo, x), le(x, hi))


FALSE = G("or")
TRUE = G("and")


def _pb(x):
    if isinstance(x, (Poly, jx.NonFin)):
        return x
    return X.P(float(x)) if isinstance(x, (float, np.floating)) else X.P(x)


class NotFiniteValue(Exception):
    pass


def sym(g, s=0, pos=True):
    """goal -> expr Bool, relaxed by slack s (Fraction) in positive position"""
    if isinstance(g, bool):
        return g
    if g.op == "and":
        return X.And(*[sym(x, s, pos) for x in g.a])
    if g.op == "or":
        if not g.a:
            return False
        return X.Or(*[sym(x, s, pos) for x in g.a])
    if g.op == "not":
        return X.Not(sym(g.a[0], s, not pos))
    if g.op == "imp":
        return X.Or(X.Not(sym(g.a[0], s, not pos)), sym(g.a[1], s, pos))
    if g.op == "b":
        v = g.a[0]
        if isinstance(v, Poly):
            return X.ne(v, X.ZERO)
        return bool(v) if isinstance(v, (bool, np.bool_, int, float, np.number)) else v
    a, b = g.a
    if isinstance(a, jx.NonFin) or isinstance(b, jx.NonFin):
        return _nf_cmp(g.op, a, b)
    a, b = _pb(a), _pb(b)
    d = a - b
    sl = X.const(s if pos else -s)
    if g.op == "le":
        return X.le(d, sl)
    if g.op == "lt":
        return X.lt(d, sl)
    if s == 0 or not pos:
        return X.eq(d, X.ZERO)
    return X.And(X.le(d, sl), X.ge(d, -sl))


def _nf_cmp(op, a, b):
    def v(x):
        return x.v if isinstance(x, jx.NonFin) else 0.0
    x, y = v(a), v(b)
    if x != x or y != y:
        return False
    if op == "le":
        return x <= y
    if op == "lt":
        return x < y
    return isinstance(a, jx.NonFin) and isinstance(b, jx.NonFin) and x == y


def truth(g):
    if isinstance(g, (bool, np.bool_)):
        return bool(g)
    if g.op == "and":
        return all(truth(x) for x in g.a)
    if g.op == "or":
        return any(truth(x) for x in g.a)
    if g.op == "not":
        return not truth(g.a[0])
    if g.op == "imp":
        return not truth(g.a[0]) or truth(g.a[1])
    if g.op == "b":
        return bool(g.a[0])
    a, b = float(g.a[0]), float(g.a[1])
    return {"le": a <= b, "lt": a < b, "eq": a == b}[g.op]


def viol(g):
    """violation amount of a concrete goal; 0 if it holds"""
    if isinstance(g, (bool, np.bool_)):
        return 0.0 if g else 1.0
    if g.op == "and":
        return max([viol(x) for x in g.a] + [0.0])
    if g.op == "or":
        if not g.a:
            return 1.0
        return 0.0 if truth(g) else min(viol(x) for x in g.a)
    if g.op == "imp":
        return viol(g.a[1]) if truth(g.a[0]) else 0.0
    if g.op == "not":
        return viol_not(g.a[0])
    if g.op == "b":
        return 0.0 if bool(g.a[0]) else 1.0
    a, b = float(g.a[0]), float(g.a[1])
    if a != a or b != b:
        return math.inf
    if g.op == "eq":
        return 0.0 if a == b else abs(a - b)
    if g.op == "le":
        return max(0.0, a - b)
    return max(0.0, a - b) if a != b else 1e-300


def viol_not(g):
    if isinstance(g, (bool, np.bool_)):
        return 1.0 if g else 0.0
    if g.op == "not":
        return viol(g.a[0])
    if g.op == "and":
        return viol(Or(*[Not(x) for x in g.a])) if g.a else 1.0
    if g.op == "or":
        return viol(And(*[Not(x) for x in g.a]))
    if g.op == "imp":
        return viol(And(g.a[0], Not(g.a[1])))
    if g.op == "b":
        return 1.0 if bool(g.a[0]) else 0.0
    a, b = float(g.a[0]), float(g.a[1])
    if a != a or b != b:
        return math.inf
    if g.op == "eq":
        return 1e-300 if a == b else 0.0
    if g.op == "le":
        return max(0.0, b - a) if a != b else 1e-300
    return max(0.0, b - a)


def first_violated(g):
    """a printable description of the violated leaf"""
    if isinstance(g, (bool, np.bool_)):
        return str(g)
    if g.op == "and":
        for x in g.a:
            if viol(x) > 0:
                return first_violated(x)
    if g.op == "imp":
        return "antecedent true, " + first_violated(g.a[1])
    if g.op in ("le", "lt", "eq"):
        return f"expected {float(g.a[0])!r} {g.op} {float(g.a[1])!r}"
    return g.op


# ------------------------------------------------ dual-mode elementary functions
def _lift(fs, fc):
    def f(*xs):
        if any(isinstance(x, np.ndarray) and x.shape for x in xs):
            sh = np.broadcast_shapes(*[np.shape(x) if isinstance(x, np.ndarray) else () for x in xs])
            bs = [np.broadcast_to(_arr(x), sh) for x in xs]
            r = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                r[i] = f(*[b[i] for b in bs])
            if sh and not any(isinstance(v, (Poly, tuple)) for v in r.flat):
                r = r.astype(float)
            return r
        xs = [x[()] if isinstance(x, np.ndarray) else x for x in xs]
        if any(isinstance(x, Poly) for x in xs):
            return fs(*[_pb(x) for x in xs])
        return fc(*xs)
    return f


exp = _lift(X.E, lambda x: math.exp(x) if x < 700 else math.inf)
log = _lift(X.Log, lambda x: math.log(x) if x > 0 else math.nan)
log10 = _lift(X.log10, lambda x: math.log10(x) if x > 0 else math.nan)
pow10 = _lift(X.pow10, lambda x: 10.0 ** x if x < 300 else math.inf)
logistic = _lift(X.L, lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0)
sqrt = _lift(X.sqrt, lambda x: math.sqrt(x) if x >= 0 else math.nan)
maximum = _lift(X.pmax, max)
minimum = _lift(X.pmin, min)
absval = _lift(lambda x: X.pmax(x, -x), abs)


def where(cond, a, b):
    """cond: G"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        raise NotImplementedError
    if isinstance(a, Poly) or isinstance(b, Poly) or _is_symgoal(cond):
        return X.ite(sym(cond, 0, False), _pb(a), _pb(b))
    return a if truth(cond) else b


def _is_symgoal(g):
    if isinstance(g, (bool, np.bool_)):
        return False
    if g.op in ("le", "lt", "eq"):
        return any(isinstance(x, Poly) for x in g.a)
    if g.op == "b":
        return isinstance(g.a[0], tuple)
    return any(_is_symgoal(x) for x in g.a)


def fr(s):
    """exact rational constant that also multiplies floats"""
    return FrF(s)


class FrF(X.Fr):
    pass


def sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) * logistic(k * (x - x0))


# ------------------------------------------------------- concrete interpretation
class ConInterp:
    """evaluate a jaxpr with the real primitives, replacing random draws and
    (optionally) interpolation by supplied numbers, in order"""

    def __init__(self, draws, env, interp_vals=None, opaque=()):
        self.tables = []
        self.opaque = {n: [] for n in opaque}
        self.q = None if draws is None else list(draws)
        self.env = env
        self.iv = list(interp_vals) if interp_vals is not None else None

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            return v.val if isinstance(v, jx.Literal) else env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for e in jaxpr.eqns:
            ins = [read(v) for v in e.invars]
            n = e.primitive.name
            if n in ("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint"):
                name = e.params.get("name", n)
                j = e.params.get("jaxpr") or e.params.get("call_jaxpr")
                if name in self.opaque:
                    outs = self.run(j.jaxpr, j.consts, ins)
                    self.opaque[name].append((ins, outs))
                elif name in ("_uniform", "_normal") and self.q is not None:
                    outs = [self.draw(e, ins, name)]
                elif name in ("_interp", "interp"):
                    if len(ins) == 3:
                        self.tables.append((np.asarray(ins[1]), np.asarray(ins[2])))
                    outs = [self.interp(e)] if self.iv is not None else self.run(j.jaxpr, j.consts, ins)
                else:
                    outs = self.run(j.jaxpr, j.consts, ins)
            elif n in ("custom_jvp_call", "custom_vjp_call"):
                j = e.params.get("call_jaxpr") or e.params.get("jaxpr")
                outs = self.run(j.jaxpr, j.consts, ins)
            else:
                outs = jx.bind(e, [jnp.asarray(x) if not jx._iskeyarr(x) else x for x in ins])
            for v, o in zip(e.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def interp(self, e):
        av = e.outvars[0].aval
        n = int(np.prod(av.shape))
        vals = [self.iv.pop(0) for _ in range(n)]
        return jnp.asarray(np.array(vals, dtype=float).reshape(av.shape), dtype=av.dtype)

    def draw(self, e, ins, name):
        av = e.outvars[0].aval
        n = int(np.prod(av.shape))
        vals = []
        for _ in range(n):
            rec = self.q.pop(0)
            vals.append(self.env.get(X.show_atom(ATOMS[rec[3]]), 0.5 if rec[0] == "U" else 0.0))
        v = jnp.asarray(np.array(vals, dtype=float).reshape(av.shape), dtype=av.dtype)
        if name == "_uniform":
            lo, hi = ins[1], ins[2]
            v = lo + (hi - lo) * v
        return v


_CTREE = {}


def concall(f, args, kw, draws, env, x64=True, interp_vals=None, tables=None, opaque=None):
    def conv(v):
        if isinstance(v, jx.Key):
            return jax.random.key(0)
        if isinstance(v, np.ndarray) and v.dtype == object:
            if v.size and isinstance(v.flat[0], jx.Key):
                return jax.random.split(jax.random.key(0), v.size).reshape(v.shape)
            if v.size and isinstance(v.flat[0], (bool, np.bool_)):
                return v.astype(bool)
            v = v.astype(float)
        if isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == "f":
            return jnp.asarray(v, dtype=jnp.float64 if x64 else jnp.float32)
        return v
    with jax.enable_x64(x64):
        leaves, tree = jax.tree_util.tree_flatten((args, kw), is_leaf=jx._isleaf)
        leaves = [conv(v) for v in leaves]
        a, k = jax.tree_util.tree_unflatten(tree, leaves)
        if not draws and interp_vals is None and tables is None and not opaque:
            out = f(*a, **k)
        else:
            ot = []

            def flat(*ls):
                a, k = jax.tree_util.tree_unflatten(tree, ls)
                o = f(*a, **k)
                ol, t = jax.tree_util.tree_flatten(o)
                ot.append(t)
                return ol
            j = jax.make_jaxpr(flat)(*leaves)
            it = ConInterp(None if opaque and not draws else draws, env, interp_vals, opaque or ())
            outs = it.run(j.jaxpr, j.consts, leaves)
            if opaque:
                for n in it.opaque:
                    opaque[n] += it.opaque[n]
            if tables is not None:
                tables += it.tables
            out = jax.tree_util.tree_unflatten(ot[0], outs)
        ol, t = jax.tree_util.tree_flatten(out)
        ol = [_tonp(v) for v in ol]
        return jax.tree_util.tree_unflatten(t, ol)


def _tonp(v):
    if jx._iskeyarr(v):
        return v
    v = np.asarray(v)
    if v.dtype.kind == "f":
        v = v.astype(np.float64)
    return v[()] if v.shape == () else v


# ------------------------------------------------------------------- context
class Ctx:
    """one execution of a scenario; symbolic if env is None"""

    def __init__(self, name, env=None, x64=True, calls=None):
        self.name, self.env, self.x64 = name, env, x64
        self.sym = env is None
        self.hyps = []          # G
        self.checks = []        # (name, G, tol)
        self.vars = []          # (name, lo, hi)
        self.calls = calls if calls is not None else []
        self.ci = 0
        self.outs = []
        self.tables = []
        self.checked = {}
        self.assume_ok = True
        self.notes = []
        self.assume_tables = False
        self.splits = []
        self.path = None
        self.opq = {}
        self.opq_log = []
        self.opaque_ix = {}
        self.opaque_seen = set()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, mid=None):
        if not self.sym:
            v = float(self.env.get(name, _mid(lo, hi) if mid is None else mid))
            return v
        v = X.var(name, lo is not None and (lo > 0 or (lo == 0 and lo_open)))
        self.vars.append((name, lo, hi))
        ((m, _),) = v.t.items()
        X.BOUNDS[m[0][0]] = (lo, hi)
        if lo is not None:
            self.hyps.append(lt(lo, v) if lo_open else le(lo, v))
        if hi is not None:
            self.hyps.append(lt(v, hi) if hi_open else le(v, hi))
        return v

    def vec(self, name, n, lo=None, hi=None, **kw):
        r = np.empty((n,) if isinstance(n, int) else n, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = self.real(name + "_".join(map(str, i)), lo, hi, **kw)
        return r if self.sym else r.astype(float)

    def time(self, name, lo=-2.0, hi=1.5):
        """a positive quantity with its log10 in [lo, hi]; returns (value, log10 value)"""
        x = self.real("lg_" + name, lo, hi)
        return pow10(x), x

    def boolean(self, name):
        if not self.sym:
            return bool(self.env.get(name, False))
        self.vars.append((name, None, None))
        return X.bvar(name)

    def integer(self, name, lo, hi):
        """any integer in [lo, hi]"""
        if not self.sym:
            return next((k for k in range(lo, hi) if self.boolean(f"{name}=={k}")), hi)
        v = X.const(hi)
        for k in reversed(range(lo, hi)):
            v = X.ite(self.boolean(f"{name}=={k}"), X.const(k), v)
        return v

    def key(self, name="k"):
        return jx.Key(name)

    def nt(self, cls, lohi=None, prefix="", **kw):
        """namedtuple of fresh reals; lohi: field -> (lo,hi)"""
        vals = []
        for f in cls._fields:
            lo, hi = (lohi or {}).get(f, (None, None))
            vals.append(self.real(prefix + f, lo, hi, **kw))
        return cls(*vals)

    def assume(self, g):
        if self.sym:
            self.hyps.append(g)
        elif viol(g) > 1e-9:
            self.assume_ok = False

    def call(self, f, *args, stub_interp=False, opaque=None, dce=False, **kw):
        """opaque: {name of an inner function: [rank of each of its arguments]}; the inner function is
        replaced by an arbitrary one (equal arguments give equal results) and every use of it, one per
        batch row, is listed in self.opq[name] as (arguments, results)"""
        self.opq = {n: [] for n in opaque or ()}
        if self.sym:
            m, n_int, n_tab = len(jx.DRAWS), len(_IVALS), len(jx.INTERP)
            st = {"_interp": _rec_interp}
            for n in opaque or ():
                st[n] = self._opaque(n, *opaque[n])
            out = jx.symcall(f, *args, stubs=st, dce=dce, **kw)
            rec = {"draws": list(jx.DRAWS[m:]), "ivals": list(_IVALS[n_int:])}
            self.calls.append(rec)
            rec["tables"] = list(range(n_tab, len(jx.INTERP))) if not stub_interp else []
            if rec["tables"] and self.assume_tables:
                smt.SORTED.update(rec["tables"])
                self.note("the interpolation tables built inside the call are increasing (shown by another scenario)")
                rec["tables"] = []
            if stub_interp:
                smt.FREE.update(rec["ivals"])
            if rec["tables"]:
                self.check(f"interpolation_table_increasing_{len(self.calls)}", And(*[
                    le(stack(*r[:-1]), stack(*r[1:])) for t in rec["tables"] for r in jx.INTERP[t]]), tol=1e-6)
                self.tables += rec["tables"]
            for d in rec["draws"]:
                v = X.atom_poly(d[3])
                nm = X.show_atom(ATOMS[d[3]])
                if nm not in [x[0] for x in self.vars]:
                    if d[0] == "U":
                        self.vars.append((nm, 0, 1))
                        self.hyps += [le(0, v), lt(v, 1)]
                    else:
                        self.vars.append((nm, None, None))
            leaves = jax.tree_util.tree_leaves(out, is_leaf=jx._isleaf)
            self.outs.append(leaves)
            return out
        rec = self.calls[self.ci] if self.ci < len(self.calls) else {"draws": [], "ivals": []}
        self.ci += 1
        iv = None
        if stub_interp and rec["ivals"]:
            iv = [self.env.get(X.show_atom(ATOMS[a]), 0.5) for a in rec["ivals"]]
        tabs = [] if rec.get("tables") else None
        uses = {n: [] for n in opaque or ()}
        out = concall(f, args, kw, rec["draws"], self.env, self.x64, iv, tabs, uses)
        for n in uses:
            for ins, outs in uses[n]:
                rows = _rows([_num(v) for v in ins], [_num(v) for v in outs], *opaque[n][:2])
                self.opq[n] += rows
                self.opq_log += rows
        if tabs:
            self.check(f"interpolation_table_increasing_{self.ci}", And(*[
                le(r[..., :-1].astype(float), r[..., 1:].astype(float)) for t in tabs for r in t]), tol=1e-6)
        self.outs.append(jax.tree_util.tree_leaves(out))
        return out

    def _opaque(self, name, ranks, oranks, rng=None, share=None):
        """stub for an arbitrary function of the given argument and result ranks; rng: bounds of each
        result; share: optional map (result number, index) -> index, to let results share one value"""
        def stub(interp, eqn, ins):
            ins = [jx.to_sym(a) for a in ins]
            outs = [np.empty(v.aval.shape, dtype=object) for v in eqn.outvars]
            for args, os_, ix in _rows(ins, outs, ranks, oranks, True):
                key = (name, tuple(tuple(_arr(a).flat) for a in args))
                k = self.opaque_ix.setdefault(key, len(self.opaque_ix))
                res = []
                for j, o in enumerate(os_):
                    r = np.empty(o.shape, dtype=object)
                    for i in np.ndindex(o.shape):
                        i2 = share(j, i) if share else i
                        nm = f"{name}#{k}.{j}" + ("_" + ",".join(map(str, i2)) if i2 else "")
                        lo, hi = rng[j] if rng else (None, None)
                        r[i] = X.var(nm)
                        if nm not in self.opaque_seen:
                            self.opaque_seen.add(nm)
                            self.vars.append((nm, lo, hi))
                            if lo is not None:
                                self.hyps.append(within(r[i], lo, hi))
                    outs[j][ix] = r if r.shape else r[()]
                    res.append(r)
                self.opq[name].append((args, res))
                self.opq_log.append((args, res))
            return outs
        return stub

    def py(self, f, *args, replace=(), np_overrides=None, attrs=(), catch=(), **kw):
        """call plain Python/numpy code of the repo; symbolic values fork the path.
        replace/attrs/np_overrides: stand-ins for third-party objects, also used on replay.
        An exception of a type in `catch` is returned as a Raised object."""
        if self.sym:
            with SN.patched(replace, np_overrides, True, attrs):
                try:
                    out = f(*SN.lift(list(args)), **SN.lift(kw))
                except tuple(catch) as e:
                    if isinstance(e, (SN.Unsupported, SN.Infeasible)):
                        raise
                    return Raised(e)
                if isinstance(out, (map, zip)) or hasattr(out, "__next__"):
                    out = list(out)
            out = SN.lower(out)
            self.outs.append(jax.tree_util.tree_leaves(out, is_leaf=_pyleaf))
            return out
        with SN.patched(replace, np_overrides, False, attrs):
            with jax.enable_x64(self.x64):
                try:
                    out = f(*[_plain(a) for a in args], **{k: _plain(v) for k, v in kw.items()})
                except tuple(catch) as e:
                    return Raised(e)
        self.outs.append(jax.tree_util.tree_leaves(out))
        return out

    def draws(self, call=-1):
        """the distinct random draws of a call, in order"""
        seen, out = set(), []
        rec = self.calls[call if self.sym or call >= 0 else self.ci + call]
        for d in rec["draws"]:
            if d[3] not in seen:
                seen.add(d[3])
                out.append(d)
        return out

    def draw(self, i, call=-1):
        """value of the i-th distinct random draw of a call"""
        d = self.draws(call)[i]
        if self.sym:
            return X.atom_poly(d[3])
        return float(self.env.get(X.show_atom(ATOMS[d[3]]), 0.5 if d[0] == "U" else 0.0))

    def draws_in(self, val, kind, tag, call=-1):
        """indices (for c.draw) of the draws of the given kind the value depends on; remembered for replay"""
        n = call if self.sym or call >= 0 else self.ci + call
        rec = self.calls[n]
        memo = rec.setdefault("deps", {})
        if self.sym:
            leaves = jax.tree_util.tree_leaves(val, is_leaf=jx._isleaf)
            ps, bs = [], []
            for v in leaves:
                for x in _arr(v).flat:
                    (ps if isinstance(x, Poly) else bs).append(x)
            at = X.closure(ps, [b for b in bs if isinstance(b, tuple)])
            memo[tag] = [k for k, d in enumerate(self.draws(call)) if d[3] in at and d[0] == kind]
        return memo[tag]

    def split_ite(self, val):
        """decide the following obligations by cases on the outermost condition of the value"""
        if self.sym and isinstance(val, Poly) and len(val.t) == 1:
            (m, _), = val.t.items()
            if len(m) == 1 and ATOMS[m[0][0]].kind == "ite":
                self.splits.append(ATOMS[m[0][0]].data[0])

    def check(self, name, g, tol=0.0):
        if self.sym:
            self.checks.append((name, g, tol))
        else:
            self.checked[name] = (viol(g), g, tol)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)


def _pyleaf(x):
    return jx._isleaf(x) or (isinstance(x, tuple) and x and isinstance(x[0], str)
                             and x[0] in ("and", "or", "not", "bv", "c"))


class Raised:
    def __init__(self, e):
        self.e = e


def _plain(a):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and not isinstance(a.flat[0], str):
        return a.astype(bool if isinstance(a.flat[0], (bool, np.bool_)) else float)
    return a


def _num(v):
    return v if jx._iskeyarr(v) else np.asarray(v, dtype=float)


def _rows(ins, outs, ranks, oranks, with_ix=False):
    """the separate uses of a (possibly vmapped) function call"""
    nb = [np.ndim(o) - r for o, r in zip(outs, oranks)]
    n = max(nb)
    bshape = [o.shape[:n] for o, b in zip(outs, nb) if b == n][0]
    r = []
    for ix in np.ndindex(bshape):
        args = [a[ix] if a.ndim == rk + n else a for a, rk in zip(ins, ranks)]
        res = [o[ix] if o.ndim == rk + n else o for o, rk in zip(outs, oranks)]
        r.append((args, res, ix) if with_ix else (args, res))
    return r


class RecCtx(Ctx):
    """a concrete run on a point drawn from the stated bounds"""

    def __init__(self, name, rng):
        super().__init__(name, env={}, x64=True, calls=[])
        self.rng = rng

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, mid=None):
        if name not in self.env:
            a, b = (-1.0 if hi is None else hi - 1.0) if lo is None else lo, (1.0 if lo is None else lo + 1.0) if hi is None else hi
            self.env[name] = float(a + (b - a) * self.rng.uniform(0.05, 0.95))
        return self.env[name]

    def boolean(self, name):
        if name not in self.env:
            self.env[name] = bool(self.rng.uniform() < 0.5)
        return self.env[name]

    def draws(self, call=-1):
        raise NoProbe

    def draw(self, i, call=-1):
        raise NoProbe

    def draws_in(self, val, kind, tag, call=-1):
        raise NoProbe


class NoProbe(Exception):
    pass


_IVALS = []


def _rec_interp(interp, eqn, args):
    r = jx._st_interp(interp, eqn, args)
    for v in r[0].flat:
        ((m, _),) = v.t.items()
        _IVALS.append(m[0][0])
    return r


def _mid(lo, hi):
    if lo is None and hi is None:
        return 0.0
    if lo is None:
        return hi - 1.0
    if hi is None:
        return lo + 1.0
    return 0.5 * (lo + hi)


class Inconclusive(Exception):
    pass


SLACKS = [X.Fr(1), X.Fr(1, 10), X.Fr(1, 100), X.Fr(1, 1000)]


class Check:
    def __init__(self, pid, title, functions=(), bounds="", outside="", assumptions=(), level="other"):
        self.pid, self.title = pid, title
        self.functions, self.bounds, self.outside = list(functions), bounds, outside
        self.assumptions = list(assumptions)
        self.level = level
        self.t0 = time.time()
        self.results = []
        self.violations = []
        self.known = []
        self.errors = []
        self.maxdiff = 0.0
        self.ncompared = 0
        self.reach = 0
        self.sides = [0, 0]
        self.undischarged = []
        self.crashed = 0
        self.deadline = self.t0 + (720 if not THOROUGH else 6 * 3600)
        self.rng = np.random.default_rng(SEED)
        self.findings = load_findings(pid)
        self.extra = {}
        self.only = None
        self.replaying = None
        av = sys.argv[1:]
        if "--only" in av:
            self.only = av[av.index("--only") + 1]
        if "--replay" in av:
            self.replaying = json.load(open(av[av.index("--replay") + 1]))
        self.verbose = "-v" in av

    # ------------------------------------------------------------------ scenario
    def scenario(self, fn, name=None, budget=60.0, sides=True, validate=True, timeout=20.0,
                 split=0, minimise=()):
        name = name or fn.__name__
        if self.only and not name.startswith(self.only):
            return
        if os.environ.get("VERIF_PROBE_ONLY"):      # self-test of the fallback below
            return self._crash(fn, name)
        if self.replaying is not None:
            if self.replaying.get("scenario") != name:
                return
            env = self.replaying["inputs"]
            try:
                ctx = self._symrun(fn, name)
            except Exception as e:  # noqa
                print(f"{name}: not encoded ({type(e).__name__}); executed on the recorded inputs only")
                ctx = Ctx(name)
            for x64 in (True, False):
                c2 = self._concrete(fn, name, ctx, env, x64)
                for k, (v, g, tol) in c2.checked.items():
                    print(f"{name}/{k} x64={x64}: violation amount {v} ({first_violated(g) if v else 'holds'})")
            return
        try:
            self._scenario(fn, name, budget, sides, validate, timeout, split)
        except Exception as e:   # noqa
            self.errors.append(f"{name}: {type(e).__name__}: {e}")
            self.crashed += 1
            self.results.append((f"{name}", "inconclusive", "could not be encoded"))
            traceback.print_exc()
            self._crash(fn, name)

    def _crash(self, fn, name):
        """the symbolic run failed (the code uses something that is not encoded): nothing is claimed to hold, but
        if the real code raises or violates an obligation on points of the domain, that is reported"""
        for _ in range(6):
            c2 = RecCtx(name, self.rng)
            try:
                fn(c2)
            except NoProbe:
                return
            except Exception as e:  # noqa
                tb = traceback.extract_tb(e.__traceback__)
                inside = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/")]
                own = [k for k, f in enumerate(tb) if os.path.realpath(f.filename).startswith(VERIF)]
                last = [k for k, f in enumerate(tb) if f in inside]
                if inside and c2.assume_ok and last[-1] > own[-1]:
                    self._report(f"{name}/raises", name, dict(c2.env), f"the code raises {type(e).__name__}: {e}"[:300],
                                 math.inf)
                    self.results.append((f"{name}/raises", "violated", ""))
                    return
                continue
            if not c2.assume_ok:
                continue
            for cname, (v, g, tol) in c2.checked.items():
                if v > max(10 * tol, 1e-5):
                    self._report(f"{name}/{cname}", name, dict(c2.env), first_violated(g), v)
                    self.results.append((f"{name}/{cname}", "violated", ""))
                    return

    # ------------------------------------------------------------ path scenarios
    def paths(self, fn, name=None, budget=30.0, timeout=10.0, validate=True, max_paths=3000, min_paths=1):
        """a scenario over plain Python code: every feasible path is executed symbolically and every
        obligation is decided on every path"""
        name = name or fn.__name__
        if self.only and not name.startswith(self.only):
            return
        if os.environ.get("VERIF_PROBE_ONLY"):
            return self._crash(fn, name)
        if self.replaying is not None:
            return self.scenario(fn, name) if self.replaying.get("scenario") == name else None
        t0 = time.time()
        work, n, first = [[]], 0, len(self.results)
        self._reachable = {}
        self._pool = []
        try:
            while work:
                prefix = work.pop()
                left = self.deadline - time.time()
                if n >= max_paths or left < 10:
                    raise Inconclusive(f"{len(work) + 1} paths left after {n}")
                ctx = None
                try:
                    ctx = self._symrun(fn, name, prefix)
                except SN.Infeasible:
                    work += SN.PATH.alt
                    continue
                except (SN.Unsupported, jx.Unsupported, Inconclusive):
                    raise
                except Exception as e:  # noqa
                    work += SN.PATH.alt
                    if not self._raised(fn, name, e):
                        raise
                    n += 1
                    continue
                work += ctx.path.alt
                self._scenario(fn, name, budget, False, validate and n < 12, timeout, 0, ctx)
                n += 1
            for full, ok in self._reachable.items():
                if not ok:
                    raise Inconclusive(f"{full}: antecedent unreachable on every path")
            if n < min_paths:
                raise Inconclusive(f"{name}: only {n} paths, at least {min_paths} expected")
        except Exception as e:   # noqa
            self.errors.append(f"{name}: {type(e).__name__}: {e}")
            self.results.append((name, "inconclusive", "could not be encoded"))
            if not isinstance(e, (Inconclusive,)):
                traceback.print_exc()
            self._crash(fn, name)
        finally:
            SN.PATH = None
        # one line per obligation
        new, merged = self.results[first:], {}
        for full, st, note in new:
            a = merged.setdefault(full, [0, None, note])
            a[0] += 1
            if st != "proved" and a[1] != "violated":
                a[1] = st
        self.results[first:] = [(k, v[1] or "proved", f"{v[0]} paths: {v[2]}") for k, v in merged.items()]
        self.extra.setdefault("paths", {})[name] = n
        if self.verbose:
            print(f"{name}: {n} paths {time.time() - t0:.1f}s")

    def _raised(self, fn, name, exc):
        """the real code raised on this path; confirm on a point of the path"""
        ctx = self._cur
        hy = [x for x in [sym(h) for h in ctx.hyps] + SN.PATH.conds + SN.PATH.extra if x is not True]
        w = smt.sat(hy, budget=20)
        if w.status == "proved":
            return True
        if w.env is None:
            return False
        env = self._named(w.env)
        for x64 in (True, False):
            c2 = Ctx(name, env=env, x64=x64, calls=ctx.calls)
            try:
                fn(c2)
            except Exception as e:  # noqa
                tb = traceback.extract_tb(e.__traceback__)
                ins = [k for k, f in enumerate(tb) if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/")]
                own = [k for k, f in enumerate(tb) if os.path.realpath(f.filename).startswith(VERIF)]
                if ins and ins[-1] > own[-1] and c2.assume_ok:
                    self._report(f"{name}/raises", name, env, f"the code raises {type(e).__name__}: {e}"[:300], math.inf)
                    self.results.append((f"{name}/raises", "violated", ""))
                    return True
        return False

    def _feasible(self, ctx):
        def f(conds):
            hy = [x for x in [sym(h) for h in ctx.hyps] + conds + SN.PATH.extra if x is not True]
            if any(x is False for x in hy):
                return False
            if self._known_point(hy) is not None:
                return True
            r = smt.sat(hy, budget=4.0, timeout=2.0)
            if r.status == "cex" and r.env is not None:
                self._pool.append({**{k: v for k, v in r.env.items() if not isinstance(k, tuple)}, **r.env})
                del self._pool[:-60]
            return r.status != "proved"
        return f

    def _known_point(self, hy):
        """an earlier model that satisfies these conditions too (evaluated, not solved)"""
        for ids in self._pool:
            memo, ids = {}, dict(ids)
            ids.update(SN.PATH.free)
            try:
                for a, p in SN.PATH.defs:
                    ids[a] = X.num(p, ids, memo)
                if all(X.num_b(b, ids, memo) for b in hy):
                    return ids
            except (KeyError, OverflowError, ValueError, ZeroDivisionError):
                continue
        return None

    def _pin(self, a):
        hy = [h for h in (sym(h) for h in self._cur.hyps) if h is not True]
        r = smt.sat(hy, budget=5)
        if r.env is None:
            return None
        try:
            k = math.floor(X.num(a, {**{q: v for q, v in r.env.items() if not isinstance(q, tuple)}}, {}))
        except (KeyError, OverflowError):
            return None
        if smt.prove(hy, X.And(X.le(X.const(k), a), X.lt(a, X.const(k + 1))), budget=5, timeout=3):
            return k
        return None

    def _symrun(self, fn, name, prefix=None):
        jx.reset()
        jx.PIN = self._pin
        _IVALS.clear()
        smt.SORTED.clear()
        smt.FREE.clear()
        SN.TOKENS.clear()
        ctx = self._cur = Ctx(name)
        if prefix is None:
            fn(ctx)
            return ctx
        ctx.path = SN.PATH = SN.Path(prefix, self._feasible(ctx))
        fn(ctx)
        for b in SN.PATH.conds + SN.PATH.extra:
            ctx.hyps.append(G("b", b))
        return ctx

    def _concrete(self, fn, name, ctx, env, x64=True):
        c2 = Ctx(name, env=env, x64=x64, calls=ctx.calls)
        fn(c2)
        return c2

    def _scenario(self, fn, name, budget, sides, validate, timeout, split, ctx=None):
        t0 = time.time()
        bypath = ctx is not None
        if not bypath:
            ctx = self._symrun(fn, name)
        side = list(X.SIDE)
        hyps = [sym(h) for h in ctx.hyps]
        hyps = [h for h in hyps if h is not True]
        if any(h is False for h in hyps):
            raise Inconclusive("assumptions are contradictory")
        for n in ctx.notes:
            if n not in self.assumptions:
                self.assumptions.append(n)
        # reachability of the assumptions
        known = self._known_point(hyps) if bypath else None
        w = smt.Result("cex", env=known) if known is not None else smt.sat(hyps, budget=30)
        if bypath and known is None and w.env is not None and w.status == "cex":
            self._pool.append(dict(w.env))
        if w.status == "proved":
            if bypath:
                return
            raise Inconclusive(f"{name}: vacuous assumptions")
        envs = []
        if w.status == "cex":
            self.reach += 1
            envs.append(self._named(w.env))
        # encoding validation on points inside the domain
        if validate:
            for env in envs + [self._random_env(ctx) for _ in range(3)]:
                self._validate(fn, name, ctx, env)
        # definedness of the recorded operations
        if sides:
            self._sides(name, hyps, side, fn, ctx)
        vacuous_ok = self._antecedents
        ctx.checks.sort(key=lambda x: not x[0].startswith("interpolation_table_increasing"))
        for (cname, g, tol) in ctx.checks:
            full = f"{name}/{cname}"
            t1 = time.time()
            self._decide(fn, full, cname, name, ctx, hyps, g, tol, budget, timeout, split)
            if cname.startswith("interpolation_table") and self.results and self.results[-1][1] == "proved":
                smt.SORTED.update(ctx.calls[int(cname.rsplit("_", 1)[1]) - 1]["tables"])
            if self.verbose and not (bypath and self.results[-1][1] == "proved"):
                print(f"  {full}: {self.results[-1] if self.results else ''} {time.time()-t1:.2f}s")
            vacuous_ok(full, hyps, g, bypath)
        if self.verbose and not bypath:
            print(f"{name}: {time.time()-t0:.2f}s")

    def _antecedents(self, full, hyps, g, bypath=False):
        """reachability twin: every top-level antecedent must be satisfiable"""
        if not isinstance(g, G):
            return
        todo = g.a if g.op == "and" else [g]
        seen = set()
        for x in todo:
            if isinstance(x, G) and x.op == "imp":
                a = sym(x.a[0], 0, False)
                if a in seen:
                    continue
                seen.add(a)
                if len(seen) > 4:
                    break
                if a is True:
                    self.__dict__.setdefault("_reachable", {})[full] = True
                    continue
                if bypath:
                    if self._reachable.get(full):
                        continue
                    self._reachable[full] = a is not False and smt.sat(hyps + [a], budget=5).status != "proved"
                    continue
                if a is False:
                    raise Inconclusive(f"{full}: antecedent never true")
                r = smt.sat(hyps + [a], budget=15)
                if r.status == "proved":
                    raise Inconclusive(f"{full}: antecedent unreachable")
                if r.status == "cex":
                    self.reach += 1

    def _named(self, env):
        out = {}
        for k, v in (env or {}).items():
            if isinstance(k, tuple):
                out[k[1]] = v
            else:
                out[X.show_atom(ATOMS[k])] = v
        return out

    def _random_env(self, ctx):
        env = {}
        for (n, lo, hi) in ctx.vars:
            if lo is None and hi is None:
                env[n] = float(self.rng.normal())
            elif lo is None:
                env[n] = float(hi - abs(self.rng.normal()))
            elif hi is None:
                env[n] = float(lo + abs(self.rng.normal()) + 1e-3)
            else:
                env[n] = float(lo + (hi - lo) * self.rng.uniform(0.02, 0.98))
        return env

    def _ids(self, env, ctx):
        return {**{i: env[a.data] for i, a in enumerate(ATOMS) if a.kind == "var" and a.data in env},
                **{i: env.get(X.show_atom(ATOMS[i]), 0.5) for i in smt.FREE},
                **{("bv", n): bool(env[n]) for n in env if ("bv", n) in [("bv", v[0]) for v in ctx.vars]}}

    def _validate(self, fn, name, ctx, env):
        """symbolic outputs evaluated numerically must equal the real outputs"""
        try:
            c2 = self._concrete(fn, name, ctx, env)
        except Exception as e:  # noqa
            self.errors.append(f"{name}: concrete run failed: {type(e).__name__}: {e}")
            traceback.print_exc()
            return
        if not c2.assume_ok:
            return
        ids = self._ids(env, ctx)
        for (_, so), (_, co) in zip(ctx.opq_log, c2.opq_log):
            for s, v in zip(so, co):
                for p, x in zip(_arr(s).flat, np.asarray(v).flat):
                    ids[next(iter(p.t))[0][0]] = float(x)
        memo = {}
        if ctx.path is not None:
            try:
                if not all(X.num_b(b, ids, {}) for b in ctx.path.conds):
                    return
            except (KeyError, OverflowError, ZeroDivisionError):
                return
        for so, co in zip(ctx.outs, c2.outs):
            for s, v in zip(so, co):
                if jx._iskeyarr(v):
                    continue
                sa, ca = _arr(s), np.asarray(v)
                if sa.shape != ca.shape:
                    self.errors.append(f"{name}: encoding shape mismatch {[_arr(q).shape for q in so]} {[np.shape(q) for q in co]}")
                    return
                for i in np.ndindex(sa.shape):
                    try:
                        if isinstance(sa[i], Poly):
                            a = X.num(sa[i], ids, memo)
                        elif isinstance(sa[i], (bool, tuple)):
                            a = float(X.num_b(sa[i], ids, memo))
                        else:
                            continue
                    except (KeyError, OverflowError):
                        continue
                    b = float(ca[i])
                    if not (math.isfinite(a) and math.isfinite(b)):
                        continue
                    d = abs(a - b) / max(1.0, abs(a), abs(b))
                    self.maxdiff = max(self.maxdiff, d)
                    self.ncompared += 1
                    if d > 1e-3:
                        self.errors.append(f"{name}: encoding mismatch {a} vs {b} at {str(env)[:400]}")
                        return

    def _sides(self, name, hyps, side, fn, ctx):
        todo = [b for t, b in side if not (isinstance(b, tuple) and b[0] == "bv")]
        if not todo:
            return
        self.sides[1] += len(todo)
        r = smt.prove(hyps, X.And(*todo), budget=20, timeout=10)
        if r:
            self.sides[0] += len(todo)
            return
        for b in todo:
            r = smt.prove(hyps, b, budget=5, timeout=4)
            if r:
                self.sides[0] += 1
                continue
            if r.env is not None and r.status == "cex":
                env = self._named(r.env)
                try:
                    c2 = self._concrete(fn, name, ctx, env, False)
                    bad = c2.assume_ok and any(not np.all(np.isfinite(np.asarray(o))) for os_ in c2.outs
                                               for o in os_ if np.asarray(o).dtype.kind == "f")
                    c3 = self._concrete(fn, name, ctx, env, True)
                    bad = bad and any(not np.all(np.isfinite(np.asarray(o))) for os_ in c3.outs
                                      for o in os_ if np.asarray(o).dtype.kind == "f")
                except Exception:  # noqa
                    bad = False
                if bad:
                    self._report(f"{name}/definedness", name, env, "the code returns a non-finite value", math.inf)
                    return
            self.undischarged.append(f"{name}: {X.show_b(b)[:160]}")

    # ------------------------------------------------------------------ decision
    def _decide(self, fn, full, cname, sname, ctx, hyps, g, tol, budget, timeout, split):
        left = self.deadline - time.time()
        if left < 5:
            self.results.append((full, "inconclusive", "out of time"))
            self.errors.append(f"{full}: not decided within the time limit")
            return
        budget = min(budget, max(5.0, left / 4))
        goal = sym(g)
        if ctx.splits:
            r, n = self._cases(ctx.splits, hyps, sym(g, X.Fr(repr(float(tol)))) if tol else goal, timeout, budget)
            if r:
                self.results.append((full, "proved", f"{n} cases: " + r.note))
                return
        if goal is True:
            r = smt.prove(hyps, goal, budget=budget)
            self.results.append((full, "proved", "exact: " + r.note))
            return
        r = prove_full(hyps, goal, timeout, budget if not tol else min(budget, 15.0), 1 if tol else 3)
        if r:
            self.results.append((full, "proved", "exact: " + r.note))
            return
        first = r
        tried = []
        gt_ = sym(g, X.Fr(repr(float(tol)))) if tol else goal
        if ctx.path is None:
            c0 = [(r.env, 0.0)] if r.status == "cex" and r.env is not None else []
            if self._replays(fn, c0, full, cname, sname, ctx, tol, tried):
                return
            if (tol or r.status != "cex") and self._replays(fn, self._branch_models(ctx, hyps, g, gt_), full, cname,
                                                            sname, ctx, tol, tried):
                return
        if tol:
            r = prove_full(hyps, gt_, timeout, budget)
            if r:
                self.results.append((full, "proved", f"to tolerance {tol}: " + r.note))
                return
        # look for robust counterexamples and replay them
        cands = []
        for s in SLACKS + ([X.Fr(repr(float(tol)))] if tol else []):
            q = smt.prove(hyps, sym(g, s), budget=min(budget, 20.0), timeout=min(timeout, 10))
            if q.status in ("cex", "cand") and q.env is not None:
                cands.append((q.env, float(s)))
                if q.status == "cex":
                    break
        for q in (r, first):
            if q.env is not None and q.status in ("cex", "cand", "unknown"):
                cands.append((q.env, 0.0))
        if self._replays(fn, cands, full, cname, sname, ctx, tol, tried):
            return
        self.results.append((full, "inconclusive", r.status))
        self.errors.append(f"{full}: {r.status} ({r.note}); replays: {tried[:6]}")

    def _replays(self, fn, cands, full, cname, sname, ctx, tol, tried):
        """execute the real code at candidate inputs; True if one is a violation"""
        thr = max(tol, 1e-9)
        for env, s in cands:
            env = self._named(env)
            for x64 in (True, False):
                try:
                    c2 = self._concrete(fn, sname, ctx, env, x64)
                except Exception as e:  # noqa
                    tried.append(f"replay raised {type(e).__name__}: {e}")
                    continue
                if not c2.assume_ok:
                    tried.append("assumptions not met numerically")
                    continue
                if cname not in c2.checked:
                    continue
                v, gg, _ = c2.checked[cname]
                t = thr if x64 else max(thr, 1e-4)
                if v > t or (v > 0 and v < 1e-200 and not tol):
                    self._report(full, sname, env, first_violated(gg), v, x64)
                    self.results.append((full, "violated", ""))
                    return True
                tried.append(f"x64={x64}: violation amount {v}")
        return False

    def _branch_models(self, ctx, hyps, g, goal, limit=8.0):
        """solver models of every branch of the goal's conditionals (under its
        antecedents), diversified by pinning inputs; those that falsify the goal
        numerically are returned as candidates for replay"""
        t_end = time.time() + limit
        ants = []

        def ant(x):
            if isinstance(x, G) and x.op == "imp":
                a = sym(x.a[0], 0, False)
                if not isinstance(a, bool):
                    ants.append(a)
                ant(x.a[1])
            elif isinstance(x, G) and x.op == "and" and len(x.a) == 1:
                ant(x.a[0])
        ant(g)
        base = list(hyps) + ants
        polys = []
        X.bool_polys(X.And(*base, X.Not(goal)), polys)
        conds = X.ite_conds(polys)[:6]
        byname = {a.data: i for i, a in enumerate(ATOMS) if a.kind == "var"}
        vs = [(byname[n], lo, hi) for n, lo, hi in ctx.vars if n in byname and lo is not None and hi is not None]
        out = []
        rng = np.random.default_rng(SEED)
        regions = [[]]
        for cd in conds:
            nxt = []
            for r in regions:
                for lit in (cd, X.Not(cd)):
                    if time.time() > t_end:
                        return out
                    if smt.prove(base + r + [lit], False, budget=1.0, timeout=0.7, max_iter=6).status != "proved":
                        nxt.append(r + [lit])
            regions = nxt[:8]
        for k in range(4):
            for r in regions:
                if time.time() > t_end:
                    return out
                pins = []
                if k:
                    pick = rng.permutation(len(vs))[:max(1, (len(vs) + 1) // (1 + k % 2))]
                    for j in pick:
                        i, lo, hi = vs[j]
                        v = X.Fr(round(lo + (hi - lo) * rng.uniform(0.02, 0.98), 3)).limit_denominator(1000)
                        p = X.eq(X.atom_poly(i), X.const(v))
                        pins.append(p)
                q = None
                while True:
                    q = smt.prove(base + r + pins, False, budget=1.5, timeout=1.0, max_iter=12)
                    if q.status != "proved" or not pins or time.time() > t_end:
                        break
                    pins = pins[:len(pins) // 2]
                if q.env is None:
                    continue
                try:
                    if X.num_b(goal, q.env, {}):
                        continue
                except (KeyError, OverflowError, ZeroDivisionError):
                    pass
                out.append((q.env, 0.0))
                if len(out) >= 4:
                    return out
        return out

    def _cases(self, conds, hyps, goal, timeout, budget):
        cs = [(list(hyps), goal)]
        for cd in conds:
            f = [lambda b, v=v: v if b == cd else ((not v) if b == X.Not(cd) else None) for v in (True, False)]
            cs = [([X.subst_b(h, {}, f[k], {}) for h in hs] + [cd if k == 0 else X.Not(cd)], X.subst_b(g, {}, f[k], {}))
                  for hs, g in cs for k in (0, 1)]
        r = None
        for hs, g in cs:
            if any(h is False for h in hs):
                continue
            r = prove_full([h for h in hs if h is not True], g, timeout, budget)
            if not r:
                return r, len(cs)
        return r or smt.Result("proved", note="no case possible"), len(cs)

    def _report(self, full, sname, env, text, amount, x64=True):
        f = match_finding(self.findings, full, env)
        rec = {"property": self.pid, "obligation": full, "scenario": sname, "inputs": env,
               "observed": text, "amount": repr(amount), "x64": x64,
               "how": f"cd /verif && /opt/venv/bin/python checks/{self.pid}.py --replay <this file>"}
        if f is not None:
            self.known.append((f, rec))
            return
        self.violations.append(rec)
        if not THOROUGH:     # already decided; look only a little further
            self.deadline = min(self.deadline, time.time() + 60)

    # ---------------------------------------------------------------- direct use
    def obligation(self, full, ok, env=None, text="", sname="", note=""):
        """record an obligation decided by other means than scenario() (e.g. path
        exploration): ok True / False (with replayed env)"""
        if ok:
            self.results.append((full, "proved", note))
        else:
            self.results.append((full, "violated", note))
            self._report(full, sname, env or {}, text, 1.0)

    def finish(self):
        if self.replaying is not None:
            sys.exit(0)
        S = smt.STATS
        proved = [r for r in self.results if r[1] == "proved"]
        for f in self.findings:
            if f.get("status") == "known":
                hit = [k for k, _ in self.known if k is f]
                if hit:
                    print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": self.level,
            "coverage": {
                "explanation": (
                    f"{len(proved)} of {len(self.results)} obligations decided for every value within the "
                    f"stated bounds by symbolic execution of the real code plus SMT ({S.queries} solver "
                    f"queries, {S.unsat} unsat, {S.sat} sat, {S.unknown} unknown, {S.time:.1f} s)."),
                "obligations": len(self.results), "discharged": len(proved),
                "obligation_list": [f"{a}: {b} ({c})" for a, b, c in self.results][:400],
                "functions_encoded": sorted(set(self.functions) | {f for f in jx.FUNCS if not f.startswith("<")}),
                "bounds": self.bounds, "outside_bounds": self.outside,
                "solver_queries": S.queries, "solver_checks": S.checks, "solver_time_s": round(S.time, 2),
                "solver_verdicts": {"unsat": S.unsat, "sat": S.sat, "unknown": S.unknown},
                "solver_back_ends": S.by,
                "reachability_witnesses": self.reach,
                "definedness_conditions": {"recorded": self.sides[1], "discharged": self.sides[0],
                                           "left_as_assumptions": self.undischarged[:30]},
                "encoding_validation": {"values_compared": self.ncompared,
                                        "max_relative_difference": self.maxdiff},
                "primitives": dict(sorted(jx.PRIMS.items(), key=lambda x: -x[1])[:30]),
                "samples": S.samples,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for k, v in enumerate(self.violations):
                p = os.path.join(d, f"{self.pid}-{k}.json")
                with open(p, "w") as fh:
                    json.dump(v, fh, indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={p}")
                print(f"  {v['obligation']}: {v['observed']} (amount {v['amount']})")
            for e in self.errors:
                print("note (inconclusive):", e[:500])
            sys.exit(1)
        if self.errors:
            for e in self.errors:
                print("UNDECIDED", e[:1500])
            # nothing refuted the property; without most of it decided that is no answer
            if 2 * len(proved) < len(self.results) or not proved:
                print(f"NO ANSWER property={self.pid}")
                sys.exit(2)
        if not self.results:
            print("ERROR no obligations")
            sys.exit(2)
        print(f"OK property={self.pid} obligations={len(proved)} queries={S.queries} "
              f"solver={S.time:.1f}s wall={time.time()-self.t0:.1f}s")
        sys.exit(0)


def _conjuncts(b):
    return list(b[1]) if isinstance(b, tuple) and b[0] == "and" else [b]


def simplify_under(hyps, goal, max_conds=24, t=2.0):
    """fold conditionals of the query whose condition is decided by the
    hypotheses (each decision is itself a solver verdict)"""
    neg = X.Not(goal)
    decided = {}
    cur = X.And(*hyps, neg)
    t_end = time.time() + 12 * t
    while True:
        if cur is False:
            return False
        polys = []
        X.bool_polys(cur, polys)
        conds = [c for c in X.ite_conds(polys) if c not in decided]
        if not conds or len(decided) >= max_conds or time.time() > t_end:
            return cur
        cd = conds[0]
        cj = _conjuncts(cur)
        d = None
        if cd in cj:
            d = True
        elif X.Not(cd) in cj:
            d = False
        else:
            simple = [x for x in cj if _size(x) < 40]
            if smt.prove(simple, cd, budget=t, timeout=t, max_iter=12):
                d = True
            elif smt.prove(simple, X.Not(cd), budget=t, timeout=t, max_iter=12):
                d = False
        decided[cd] = d
        if d is None:
            continue
        cur = _subst_under(cj, cd, d)


def _subst_under(cj, cd, v):
    f = lambda b: v if b == cd else ((not v) if b == X.Not(cd) else None)  # noqa
    memo = {}
    out = [X.subst_b(x, {}, f, memo) if x != cd and x != X.Not(cd) else x for x in cj]
    return X.And(*out)


_SZ = {}


def _size(b):
    r = _SZ.get(b)
    if r is None:
        r = _SZ[b] = len(X.closure([], [b]))
    return r


def prove_full(hyps, goal, timeout=20.0, budget=60.0, depth=3):
    """prove; if inconclusive, fold decided conditionals, then split conjunctive
    goals, then split on conditions"""
    big = isinstance(goal, tuple) and goal[0] == "and" and len(goal[1]) > 24
    if big:
        r = smt.Result("unknown")
    else:
        r = smt.prove(hyps, goal, timeout=min(timeout, 4.0), budget=min(budget, 6.0), max_iter=14)
    if r or r.status == "cex":
        return r
    t_end = time.time() + budget
    # conjunction: negation is a disjunction
    neg = X.Not(goal)
    if isinstance(goal, tuple) and goal[0] == "and" and len(goal[1]) > 1:
        n = 0
        for g in sorted(goal[1], key=lambda x: _size(x)):
            rr = prove_full(hyps, g, timeout, max(5.0, t_end - time.time()), depth)
            n += 1
            if not rr:
                return rr
        return smt.Result("proved", note=f"{n} conjuncts")
    cur = simplify_under(hyps, goal)
    if cur is False:
        return smt.Result("proved", note="conditionals folded")
    last = r
    r = smt.prove(_conjuncts(cur), False, timeout=timeout, budget=max(3.0, min(budget, t_end - time.time())))
    if r or r.status == "cex":
        return r
    if r.env is None:
        r = last
    if depth <= 0 or time.time() > t_end:
        return r
    polys = []
    X.bool_polys(cur, polys)
    conds = X.ite_conds(polys)
    if not conds:
        return r
    cd = conds[0]
    for v in (True, False):
        cur2 = _subst_under(_conjuncts(cur), cd, v)
        cur2 = X.And(cur2, cd if v else X.Not(cd))
        if cur2 is False:
            continue
        rr = prove_full(_conjuncts(cur2), False, timeout, max(5.0, t_end - time.time()), depth - 1)
        if not rr:
            return rr if rr.status == "cex" else (rr if rr.env is not None else r)
    return smt.Result("proved", note="case split")


# -------------------------------------------------------------- known findings
def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == pid]


def match_finding(fs, full, env):
    for f in fs:
        if f.get("status") == "known" and f.get("obligation") == full:
            ok = True
            for k, (lo, hi) in f.get("inputs", {}).items():
                if k not in env or not (lo <= env[k] <= hi):
                    ok = False
            if ok:
                return f
    return None


def stack(*xs):
    if any(isinstance(x, Poly) for x in xs):
        r = np.empty(len(xs), dtype=object)
        for k, x in enumerate(xs):
            r[k] = _pb(x)
        return r
    return np.array([float(x) for x in xs])
