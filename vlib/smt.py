"""Deciding universally quantified claims about Poly/Bool expressions with an
SMT solver (z3).

prove(hyps, goal) asks whether (hyps and not goal) is satisfiable over the reals.
Applications of exp, logistic, log, sqrt and conditionals are named by fresh
reals; the mathematical facts about them (range, monotonicity, inverses,
tangent and secant bounds) are instantiated lazily: a candidate model is
checked against every fact, violated instances are added, and the query is
repeated.  `unsat` is therefore a proof over the reals; a model that satisfies
all facts and evaluates numerically to a violation is a counterexample.
"""
import bisect
import math
import os
import sys
import time
from fractions import Fraction as Fr

from . import expr as X
from .expr import ATOMS, Poly

try:
    import z3
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

z3.set_param("memory_max_size", 6000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.checks = 0
        self.time = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.samples = []
        self.by = {}


STATS = Stats()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def _q(f):
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


class Enc:
    """z3 encoding of expressions, memoised per query"""

    def __init__(self):
        self.av = {}
        self.inv = {}
        self.pm = {}
        self.bm = {}
        self.base = []      # always-true facts

    def atom(self, a):
        v = self.av.get(a)
        if v is None:
            at = ATOMS[a]
            if at.kind == "ite":
                c, x, y = at.data
                e = z3.If(self.boolean(c), self.poly(x), self.poly(y))
                v = z3.Real(f"i{a}")
                self.base.append(v == e)
            elif at.kind == "Q":
                v = self.poly(at.data)
            else:
                v = z3.Real(f"{at.kind}{a}")
                if at.kind in ("E",) or (at.pos and at.kind != "L"):
                    self.base.append(v > 0)
                if at.kind == "L":
                    self.base += [v > 0, v < 1]
                if at.kind == "sqrt":
                    d = self.poly(at.data)
                    self.base += [v >= 0, z3.Implies(d >= 0, v * v == d)]
                if at.kind == "const":
                    self.base += [v > _q(Fr("2.302585092994")), v < _q(Fr("2.302585092995"))]
            self.av[a] = v
        return v

    def ainv(self, a):
        v = self.inv.get(a)
        if v is None:
            x = self.atom(a)
            v = z3.Real(f"inv{a}")
            if ATOMS[a].pos:
                self.base += [x * v == 1, v > 0]
            else:
                self.base.append(z3.Or(x * v == 1, x == 0))
            self.inv[a] = v
        return v

    def poly(self, p):
        r = self.pm.get(p)
        if r is None:
            ts = []
            for m, c in p.t.items():
                fs = []
                for a, e in m:
                    fs += [self.atom(a) if e > 0 else self.ainv(a)] * abs(e)
                t = None
                for f in fs:
                    t = f if t is None else t * f
                t = _q(c) if t is None else (t if c == 1 else _q(c) * t)
                ts.append(t)
            r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            self.pm[p] = r
        return r

    def boolean(self, b):
        if b is True or b is False:
            return z3.BoolVal(b)
        r = self.bm.get(b)
        if r is None:
            if b[0] == "c":
                p = self.poly(b[2])
                r = {">": p > 0, ">=": p >= 0, "==": p == 0}[b[1]]
            elif b[0] == "not":
                r = z3.Not(self.boolean(b[1]))
            elif b[0] == "and":
                r = z3.And([self.boolean(x) for x in b[1]])
            elif b[0] == "bv":
                r = z3.Bool(f"b_{b[1]}")
            else:
                raise X.BoolAtomError(b)
            self.bm[b] = r
        return r


def _val(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    return None


def _frac_bounds(f, x):
    """rational lower/upper bounds of f(x), f in exp, logistic, log; x Fraction"""
    xf = float(x)
    if f == "E":
        if xf > 600 or xf < -600:
            return None
        v = math.exp(xf)
        d = (abs(xf) + 4) * 4e-16 * v + 1e-300
    elif f == "L":
        if abs(xf) > 600:
            return None
        v = 1 / (1 + math.exp(-xf))
        d = (abs(xf) + 6) * 4e-16 * v
    elif f in MONO_UF:
        if f == "erf_inv":
            return None
        v = math.erf(xf) if f == "erf" else 0.5 * math.erfc(-xf / math.sqrt(2.0))
        d = 1e-12
    else:
        if xf <= 0:
            return None
        v = math.log(xf)
        d = 8e-16 * (abs(v) + 1)
    d = max(d, abs(v) * 1e-13)
    return Fr(v - d), Fr(v + d)


MONO_UF = ("Phi", "erf", "erf_inv")
FREE = set()        # interpolation values left unconstrained beyond their range
SORTED = set()      # interpolation tables shown to be increasing


def _fkind(a):
    k = ATOMS[a].kind
    if k in ("E", "L", "Log"):
        return k
    if k == "uf" and ATOMS[a].data[0] in MONO_UF:
        return ATOMS[a].data[0]
    return None


def _interp_facts(a, enc, addf):
    """linear interpolation never leaves the range of its ordinates, and is
    constant outside the table; for tables shown to be increasing it is monotone"""
    t, x = ATOMS[a].data[1], ATOMS[a].data[2]
    xp, fp = X.TABLES[t]
    v, xe = enc.atom(a), enc.poly(x)
    cs = [q.const() for q in fp]
    if all(c is not None for c in cs):
        addf(("irng", a), z3.And(v >= _q(min(cs)), v <= _q(max(cs))))
    else:
        fe = [enc.poly(q) for q in fp]
        if t in SORTED:
            addf(("irng", a), z3.And(v >= fe[0], v <= fe[-1]))
        else:
            addf(("irng", a), z3.And(z3.Or([v >= f for f in fe]), z3.Or([v <= f for f in fe])))
    if t in SORTED:
        known = enc.av
        for k, (p, f) in enumerate(zip(xp, fp)):
            # only abscissae already mentioned by the query (or numeric) are worth a fact
            if k in (0, len(xp) - 1) or p.const() is not None or \
                    all(q in known for q in X.poly_atoms(p)):
                pe, fe = enc.poly(p), enc.poly(f)
                addf(("ipt", a, k), z3.And(z3.Implies(xe <= pe, v <= fe), z3.Implies(xe >= pe, v >= fe)))


def _near_knots(a, env, v):
    """table entries that bracket the candidate model's abscissa or ordinate"""
    t, x = ATOMS[a].data[1], ATOMS[a].data[2]
    xp, fp = X.TABLES[t]
    memo = {}
    out = set()
    try:
        for row, q in ((xp, X.num(x, env, memo)), (fp, None if v is None else float(v))):
            if q is None:
                continue
            r = [X.num(p, env, memo) for p in row]
            k = bisect.bisect_left(r, q)
            out |= {k - 1, k, k + 1}
    except (KeyError, OverflowError, ZeroDivisionError):
        pass
    return sorted(k for k in out if 0 <= k < len(xp))


def _simple(x, den=10**6):
    return Fr(x).limit_denominator(den)


class Result:
    def __init__(self, status, env=None, note=""):
        self.status, self.env, self.note = status, env, note

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return f"Result({self.status},{self.note})"


_TACT = {}


def _check(cons, timeout, kind):
    STATS.queries += 1
    t0 = time.time()
    if kind == "nlsat":
        s = z3.TryFor(z3.Tactic("qfnra-nlsat"), int(timeout * 1000)).solver() \
            if False else z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", int(timeout * 1000))
    else:
        s = z3.SimpleSolver() if kind == "simple" else z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", SEED)
    s.add(*cons)
    r = s.check()
    dt = time.time() - t0
    STATS.time += dt
    STATS.by[kind] = STATS.by.get(kind, 0) + 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    return "unknown", None


def solve(cons, timeout, order=("smt", "nlsat")):
    for i, k in enumerate(order):
        r, m = _check(cons, timeout if i else min(timeout, 8.0), k)
        if r != "unknown":
            return r, m
    return "unknown", None


def prove(hyps, goal, timeout=20.0, max_iter=60, order=("smt", "nlsat"), tol=None,
          budget=120.0, numeric_ok=True, debug=False):
    """Decide hyps |= goal.  goal: Bool (expr).  Returns Result."""
    STATS.checks += 1
    neg = X.Not(goal)
    conj = X.And(*hyps, neg)
    if conj is False:
        STATS.queries += 1
        # still ask the solver for the (trivial) verdict
        r, _ = _check([z3.BoolVal(False)], 1, "smt")
        return Result("proved", note="normal form")
    enc = Enc()
    cons = [enc.boolean(b) for b in hyps] + [enc.boolean(neg)]
    cl, fs, ufs, varz = [], [], [], []
    args, yargs, uargs = {}, {}, {}
    facts = []
    done = set()

    def addf(key, f):
        if key in done:
            return False
        done.add(key)
        facts.append(f)
        return True

    def register(atoms):
        """encode atoms and add the cheap facts about them up front"""
        new = sorted(a for a in atoms if a not in known)
        known.update(new)
        cl.extend(new)
        for a in new:
            enc.atom(a)
        nfs = [a for a in new if _fkind(a)]
        nufs = [a for a in new if ATOMS[a].kind == "uf"]
        fs.extend(nfs)
        ufs.extend(nufs)
        varz.extend(a for a in new if ATOMS[a].kind == "var" or ATOMS[a].kind == "uf"
                    and (ATOMS[a].data[0] not in X.NUM_UF or a in FREE))
        for a in nufs:
            uargs[a] = [enc.poly(x) for x in ATOMS[a].data[1:] if isinstance(x, Poly)]
        for a in nfs:
            at = ATOMS[a]
            d = at.data if at.kind != "uf" else at.data[1]
            args[a] = enc.poly(d)
            # exp(ln10*y): order comparisons can use y
            if at.kind == "E" and d.t and all(dict(m).get(X.LN10_ID) == 1 for m in d.t):
                yargs[a] = enc.poly(X.mul(d, X.INVLN10))
            v, x = enc.atom(a), yargs.get(a, args[a])
            if at.kind == "E":
                addf(("sgn", a), z3.And(z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1),
                                        z3.Implies(x == 0, v == 1)))
            elif at.kind == "L":
                addf(("sgn", a), z3.And(z3.Implies(x > 0, 2 * v > 1), z3.Implies(x < 0, 2 * v < 1),
                                        z3.Implies(x == 0, 2 * v == 1)))
            elif at.kind == "uf":
                h = z3.Q(1, 2) if at.data[0] == "Phi" else z3.RealVal(0)
                addf(("sgn", a), z3.And(z3.Implies(x > 0, v > h), z3.Implies(x < 0, v < h),
                                        z3.Implies(x == 0, v == h)))
                if at.data[0] == "Phi":
                    addf(("rng", a), z3.And(v > 0, v < 1))
                if at.data[0] == "erf":
                    addf(("rng", a), z3.And(v > -1, v < 1))
            else:
                addf(("sgn", a), z3.And(z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0),
                                        z3.Implies(x == 1, v == 0)))
        for a in nufs:
            at = ATOMS[a]
            if at.data[0] == "floor":
                n = z3.Int(f"fl{a}")
                x = enc.poly(at.data[1])
                facts.extend([enc.atom(a) == z3.ToReal(n), enc.atom(a) <= x, x < enc.atom(a) + 1])
            elif at.data[0] == "interp":
                _interp_facts(a, enc, addf)
    known = set()
    register(X.closure([], list(hyps) + [neg]))
    t_end = time.time() + budget
    last = None
    for it in range(max_iter):
        if time.time() > t_end:
            return Result("unknown", last, "budget")
        r, m = solve(cons + enc.base + facts, min(timeout, max(1.0, t_end - time.time())), order)
        if r == "unsat":
            if len(STATS.samples) < 6:
                STATS.samples.append({"goal": X.show_b(goal)[:300], "atoms": len(cl),
                                      "facts": len(facts), "rounds": it + 1, "verdict": "unsat"})
            return Result("proved", note=f"{it+1} rounds, {len(facts)} facts")
        if r == "unknown":
            return Result("unknown", last, "solver unknown")
        # candidate
        val = {a: _val(m, enc.atom(a)) for a in cl}
        bvals = {b: z3.is_true(m.eval(e, model_completion=True))
                 for b, e in enc.bm.items() if b is not True and b is not False and b[0] == "bv"}
        env = {a: float(val[a]) for a in varz if val[a] is not None}
        env.update(bvals)
        last = env
        # numeric confirmation
        if numeric_ok:
            try:
                memo = {}
                ok = all(X.num_b(h, env, memo) for h in hyps)
                if ok and not X.num_b(goal, env, memo) and _robust(goal, env, tol) \
                        and _ufs_ok(ufs, env):
                    return Result("cex", env, f"{it+1} rounds")
            except (KeyError, OverflowError, ZeroDivisionError):
                pass
        added = 0
        xs = {a: _val(m, args[a]) for a in fs}
        ux = {a: [_val(m, e) for e in uargs[a]] for a in ufs}
        # functional consistency of uninterpreted symbols
        byname = {}
        for a in ufs:
            byname.setdefault((ATOMS[a].data[0], tuple(x for x in ATOMS[a].data[1:]
                                                       if not isinstance(x, Poly))), []).append(a)
        for lst in byname.values():
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    if len(uargs[a]) == len(uargs[b]) and ux[a] == ux[b] and val[a] != val[b]:
                        added += addf(("uf", a, b), z3.Implies(
                            z3.And([x == y for x, y in zip(uargs[a], uargs[b])] or [z3.BoolVal(True)]),
                            enc.atom(a) == enc.atom(b)))
        kinds = {}
        for a in fs:
            kinds.setdefault(_fkind(a), []).append(a)
        for k, lst in kinds.items():
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    if xs[a] is None or xs[b] is None:
                        continue
                    if k == "Log" and (xs[a] <= 0 or xs[b] <= 0):
                        continue
                    da, dv = xs[a] - xs[b], val[a] - val[b]
                    if (da > 0) != (dv > 0) or (da == 0) != (dv == 0):
                        va, vb, xa, xb = enc.atom(a), enc.atom(b), args[a], args[b]
                        if a in yargs and b in yargs:
                            xa, xb = yargs[a], yargs[b]
                        f = z3.And((xa > xb) == (va > vb), (xa == xb) == (va == vb))
                        if k == "Log":
                            f = z3.Implies(z3.And(xa > 0, xb > 0), f)
                        added += addf(("mono", a, b), f)
        bytab = {}
        for a in ufs:
            if ATOMS[a].data[0] == "interp" and ATOMS[a].data[1] in SORTED:
                bytab.setdefault(ATOMS[a].data[1], []).append(a)
        for lst in bytab.values():
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    xa, xb = uargs[a][0], uargs[b][0]
                    va, vb = enc.atom(a), enc.atom(b)
                    added += addf(("imono", a, b), z3.And(z3.Implies(xa <= xb, va <= vb),
                                                          z3.Implies(xb <= xa, vb <= va)))
        # reflected pairs: logistic(-b) = 1 - logistic(b), exp(-b) = 1/exp(b)
        for k in ("L", "E"):
            lst = kinds.get(k, [])
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    d = xs[a] + xs[b]
                    w = val[a] + val[b] - 1 if k == "L" else val[a] * val[b] - 1
                    if (d > 0) != (w > 0) or (d == 0) != (w == 0):
                        va, vb, xa, xb = enc.atom(a), enc.atom(b), args[a], args[b]
                        ww = va + vb if k == "L" else va * vb
                        added += addf(("refl", a, b), z3.And((xa + xb > 0) == (ww > 1),
                                                             (xa + xb == 0) == (ww == 1)))
        # links
        for e in kinds.get("E", []):
            for g in kinds.get("Log", []):
                # log(u), u == exp(b)  => log = b ; exp(b), b == log(u), u>0 => exp = u
                if (xs[g] == val[e]) != (val[g] == xs[e]) and xs[g] is not None and xs[g] > 0:
                    added += addf(("el", e, g), z3.Implies(args[g] > 0,
                                  (args[g] == enc.atom(e)) == (enc.atom(g) == args[e])))
            for l in kinds.get("L", []):
                if xs[l] == xs[e] and val[l] * (1 + val[e]) != val[e]:
                    added += addf(("Le", e, l), z3.Implies(args[l] == args[e],
                                  enc.atom(l) * (1 + enc.atom(e)) == enc.atom(e)))
                if xs[l] == -xs[e] and val[l] * (1 + val[e]) != 1:
                    added += addf(("Le-", e, l), z3.Implies(args[l] == -args[e],
                                  enc.atom(l) * (1 + enc.atom(e)) == 1))
        for fine in ((False, True) if not added or it > 3 else ()):
            if fine and added:
                break
            # numeric refinement at the model point
            for a in fs:
                x = xs[a]
                if x is None:
                    continue
                k = _fkind(a)
                x0 = _simple(x, 10**3) if abs(x) < 1000 else Fr(int(x))
                for xx in ({x0, _simple(x, 10**7)} if it > 8 or fine else {x0}) | ({
                        Fr(math.ceil(x * 10**6), 10**6), Fr(math.floor(x * 10**6), 10**6)} if fine else set()):
                    if k == "Log" and xx <= 0:
                        continue
                    b = _frac_bounds(k, xx)
                    if b is None:
                        continue
                    lo, hi = b
                    if xx == x and lo <= val[a] <= hi:
                        continue
                    v, xa = enc.atom(a), args[a]
                    ql, qh, qx = _q(lo), _q(hi), _q(xx)
                    fsl = [z3.Implies(xa <= qx, v <= qh), z3.Implies(xa >= qx, v >= ql)]
                    if k == "E":      # convex: tangent
                        fsl.append(z3.If(xa >= qx, v >= ql + ql * (xa - qx), v >= ql + qh * (xa - qx)))
                    elif k in MONO_UF:
                        pass
                    elif k == "Log":  # concave: tangent
                        fsl = [z3.Implies(z3.And(xa > 0), z3.And(
                            z3.Implies(xa <= qx, v <= qh), z3.Implies(xa >= qx, v >= ql),
                            v <= qh + (xa - qx) / qx))]
                    else:             # |L'| <= 1/4
                        fsl += [z3.Implies(xa >= qx, v <= qh + (xa - qx) / 4),
                                z3.Implies(xa <= qx, v >= ql + (xa - qx) / 4)]
                    added += addf(("num", a, xx), z3.And(fsl))
        for lst in bytab.values():
            for a in lst:
                for k in _near_knots(a, env, val[a]):
                    if ("ipt", a, k) not in done:
                        xp, fp = X.TABLES[ATOMS[a].data[1]]
                        register(X.closure([xp[k], fp[k]], []))
                        xe, v = uargs[a][0], enc.atom(a)
                        pe, fe = enc.poly(xp[k]), enc.poly(fp[k])
                        added += addf(("ipt", a, k), z3.And(z3.Implies(xe <= pe, v <= fe),
                                                            z3.Implies(xe >= pe, v >= fe)))
        if debug:
            print("iter", it, "added", added, {X.show_atom(ATOMS[a]): float(val[a]) for a in varz})
        if not added:
            return Result("cand", env, "no further facts")
    return Result("unknown", last, "iterations")


def _ufs_ok(ufs, env):
    return True


def _robust(goal, env, tol):
    """for goals with a tolerance: the violation must exceed it numerically"""
    if tol is None:
        return True
    try:
        return tol(env)
    except Exception:
        return False


def sat(hyps, **kw):
    """is the conjunction of hyps satisfiable?  Result 'cex' = yes (witness)"""
    return prove(hyps, False, **kw)
