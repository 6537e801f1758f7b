"""Symbolic real expressions in a normal form.

A value is a Poly: a sum of monomials with rational coefficients over *atoms*
(input variables, applications of transcendental functions, conditionals,
reciprocals of polynomials).  The normal form decides polynomial identities and
the laws  exp(a+b)=exp(a)exp(b), logistic(-x)=1-logistic(x),
1/logistic(x)=1+exp(-x), log(exp x)=x, logistic(log u)=u/(1+u), log10/10** as
scaled ln/exp; everything else (orderings, case splits, nonlinear arithmetic) is
left to the SMT solver, see smt.py.  Rewrites that divide by, or take the
logarithm of, a subexpression are valid only where that subexpression is nonzero
/ positive: each use is recorded in SIDE so that a check can discharge it.
"""
from fractions import Fraction as Fr
import bisect
import math
import numpy as _np

ATOMS = []          # id -> Atom
_ATOM_IX = {}


class Atom:
    __slots__ = ("kind", "data", "id", "pos")

    def __init__(self, kind, data, pos=False):
        self.kind, self.data, self.pos = kind, data, pos

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, data, pos=False):
    key = (kind, data)
    i = _ATOM_IX.get(key)
    if i is None:
        a = Atom(kind, data, pos)
        a.id = len(ATOMS)
        ATOMS.append(a)
        _ATOM_IX[key] = i = a.id
    return i


SIDE = []           # recorded definedness conditions: (tag, Bool)
_SIDE_SEEN = set()


def side(tag, b):
    if b is True:
        return
    k = (tag, b)
    if k not in _SIDE_SEEN:
        _SIDE_SEEN.add(k)
        SIDE.append((tag, b))


def side_mark():
    return len(SIDE)


def side_reset():
    SIDE.clear()
    _SIDE_SEEN.clear()


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        return self

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    # arithmetic
    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return add(self, -P(o))

    def __rsub__(self, o):
        return add(P(o), -self)

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, P(o))

    def __rtruediv__(self, o):
        return div(P(o), self)

    def __pow__(self, o):
        return power(self, P(o))

    def __repr__(self):
        return show(self)

    def const(self):
        """Fraction if the polynomial is constant, else None."""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def lit(x):
    """Rational meaning of a numeric literal.

    float32/float64 literals are read as the shortest decimal that rounds to
    them (0.1f32 is 1/10)."""
    if isinstance(x, Fr):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fr(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fr(int(x))
    if isinstance(x, _np.floating) or isinstance(x, float):
        if not math.isfinite(float(x)):
            raise NonFinite(float(x))
        return Fr(repr(float(str(x)))) if isinstance(x, _np.floating) else Fr(repr(x))
    raise TypeError(type(x))


class NonFinite(Exception):
    pass


def const(c):
    c = Fr(c)
    return Poly({(): c}) if c else ZERO


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Fr):
        return const(x)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        x = x.item() if not isinstance(x, _np.generic) else x
    return const(lit(x))


def var(name, pos=False):
    return Poly({((mk_atom("var", name, pos), 1),): Fr(1)})


def atom_poly(i):
    return Poly({((i, 1),): Fr(1)})


def add(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    r = dict(a.t)
    for m, c in b.t.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return Poly(r)


def psum(ps):
    r = {}
    for p in ps:
        for m, c in p.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return Poly(r)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def mul(a, b):
    ca = a.const()
    if ca is not None:
        return Poly({m: c * ca for m, c in b.t.items()}) if ca else ZERO
    cb = b.const()
    if cb is not None:
        return Poly({m: c * cb for m, c in a.t.items()}) if cb else ZERO
    r = {}
    special = False
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return _norm(Poly(r))


def _is_special(m):
    for a, e in m:
        k = ATOMS[a].kind
        if k == "Q" or (k == "L" and e < 0) or (k == "sqrt" and (e > 1 or e < 0)):
            return True
    return False


def _norm(p):
    """Eliminate forms the normal form forbids: Q^+k, L^-k, sqrt^k, and
    cancel Q^-1 against numerators divisible by q."""
    if not any(_is_special(m) for m in p.t):
        return p
    out = ZERO
    groups = {}
    for m, c in p.t.items():
        rest, qs, extra = [], [], ONE
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "Q":
                if e > 0:
                    extra = mul(extra, _ipow(at.data, e))
                else:
                    qs.append((a, e))
            elif at.kind == "L" and e < 0:
                extra = mul(extra, _ipow(ONE + E(-at.data), -e))
            elif at.kind == "sqrt" and e > 1:
                extra = mul(extra, _ipow(at.data, e // 2))
                if e % 2:
                    rest.append((a, 1))
            elif at.kind == "sqrt" and e < 0:
                k = (-e + 1) // 2
                extra = mul(extra, recip(_ipow(at.data, k)))
                r = e + 2 * k
                if r:
                    rest.append((a, r))
            else:
                rest.append((a, e))
        base = Poly({tuple(rest): c})
        if extra is not ONE:
            base = mul(base, extra)
            # extra may itself contain Q factors: regroup
            for m2, c2 in base.t.items():
                q2 = tuple((a, e) for a, e in m2 if ATOMS[a].kind == "Q")
                r2 = tuple((a, e) for a, e in m2 if ATOMS[a].kind != "Q")
                q = _mmul(tuple(sorted(qs)), q2)
                g = groups.setdefault(q, {})
                g[r2] = g.get(r2, 0) + c2
        else:
            g = groups.setdefault(tuple(sorted(qs)), {})
            r2 = tuple(rest)
            g[r2] = g.get(r2, 0) + c
    res = {}
    for qs, g in groups.items():
        num = Poly({m: c for m, c in g.items() if c})
        if any(e > 0 for _, e in qs):
            num2 = mul(num, Poly({qs: Fr(1)}))
            num, qs = num2, ()
        qs = list(qs)
        changed = True
        while changed and qs:
            changed = False
            for i, (a, e) in enumerate(qs):
                quo = exact_div(num, ATOMS[a].data)
                if quo is not None:
                    num = quo
                    if e + 1 == 0:
                        qs.pop(i)
                    else:
                        qs[i] = (a, e + 1)
                    changed = True
                    break
        qm = tuple(qs)
        for m, c in num.t.items():
            mm = _mmul(m, qm)
            n = res.get(mm, 0) + c
            if n:
                res[mm] = n
            else:
                res.pop(mm, None)
    return Poly(res)


def _ipow(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def _content(p):
    """(monomial gcd, leading coefficient, primitive part)"""
    ms = [dict(m) for m in p.t]
    g = {}
    for a in {a for m in ms for a in m}:
        g[a] = min(m.get(a, 0) for m in ms)
    g = tuple(sorted((a, e) for a, e in g.items() if e))
    gi = tuple((a, -e) for a, e in g)
    q = {_mmul(m, gi): c for m, c in p.t.items()}
    lead = q[max(q, key=_mkey)]
    q = {m: c / lead for m, c in q.items()}
    return g, lead, Poly(q)


def _mkey(m):
    return (sum(e for _, e in m), m)


def exact_div(n, d):
    """n/d if the division is exact (polynomials, nonneg exponents after
    shifting), else None."""
    if not n.t:
        return ZERO
    dc = d.const()
    if dc is not None:
        return mul(n, const(1 / dc)) if dc else None
    # shift negatives
    sh = {}
    for m in n.t:
        for a, e in m:
            if e < 0:
                sh[a] = min(sh.get(a, 0), e)
    shm = tuple(sorted((a, -e) for a, e in sh.items()))
    r = {_mmul(m, shm): c for m, c in n.t.items()}
    if len(d.t) > len(r):
        return None
    # lex leading monomial on sorted exponents
    atoms = sorted({a for m in list(r) + list(d.t) for a, _ in m})

    def lk(m):
        dd = dict(m)
        return tuple(dd.get(a, 0) for a in atoms)
    dl = max(d.t, key=lk)
    dlc = d.t[dl]
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        rl = max(r, key=lk)
        dd = dict(rl)
        ok = True
        for a, e in dl:
            if dd.get(a, 0) < e:
                ok = False
                break
        if not ok:
            return None
        qm = _mmul(rl, tuple((a, -e) for a, e in dl))
        qc = r[rl] / dlc
        q[qm] = q.get(qm, 0) + qc
        for m, c in d.t.items():
            mm = _mmul(m, qm)
            nn = r.get(mm, 0) - c * qc
            if nn:
                r[mm] = nn
            else:
                r.pop(mm, None)
    shi = tuple((a, -e) for a, e in shm)
    return Poly({_mmul(m, shi): c for m, c in q.items() if c})


def recip(p):
    if not p.t:
        raise ZeroDivisionError
    g, lead, q = _content(p)
    base = Poly({tuple((a, -e) for a, e in g): 1 / lead})
    base = _norm(base)
    if q.const() is not None:
        return base
    # c*(1-L(z)) -> 1/(1-L) = 1+E(z)
    if len(q.t) == 2 and () in q.t:
        (m, c), = [(m, c) for m, c in q.t.items() if m != ()]
        c0 = q.t[()]
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "L" and c == -c0:
            return mul(base, (ONE + E(ATOMS[m[0][0]].data)) * (1 / c0))
        if all(ATOMS[a].kind == "E" for a, _ in m) and m and c == c0:
            z = psum([ATOMS[a].data * e for a, e in m])
            return mul(base, L(-z) * (1 / c0))
    for a in sorted(poly_atoms(q)):
        if ATOMS[a].kind == "L":
            f = exact_div(q, ONE - atom_poly(a))
            if f is not None:
                return mul(mul(base, recip(f)), ONE + E(ATOMS[a].data))
    qa = mk_atom("Q", q)
    return mul(base, Poly({((qa, -1),): Fr(1)}))


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return mul(a, const(1 / c))
    side("div", ne(b, ZERO))
    g, lead, q = _content(b)
    if q.const() is None:
        e = exact_div(a, q)
        if e is not None:
            inv = _norm(Poly({tuple((x, -k) for x, k in g): 1 / lead}))
            return mul(e, inv)
    return mul(a, recip(b))


# ------------------------------------------------------------ transcendental
LN10 = atom_poly(mk_atom("const", "LN10", True))
LN10_ID = ATOMS[-1].id
INVLN10 = Poly({((LN10_ID, -1),): Fr(1)})
_LN10F = math.log(10)


def snap_const(f):
    """Known irrational constants appearing as literals."""
    if f and abs(f - _LN10F) < 3e-7 * _LN10F:
        return LN10
    if f and abs(f - 1 / _LN10F) < 3e-7 / _LN10F:
        return INVLN10
    return None


def litp(x):
    """literal -> Poly, with the constants ln 10 and 1/ln 10 recognised"""
    if isinstance(x, (float, _np.floating)):
        s = snap_const(float(x))
        if s is not None:
            return s
    return const(lit(x))


def _sgn_canon(p):
    """(sign, p') with p' having positive leading coefficient"""
    lead = p.t[max(p.t, key=_mkey)]
    if lead < 0:
        return -1, -p
    return 1, p


def E(p):
    """exp"""
    c = p.const()
    if c is not None and c == 0:
        return ONE
    r = {}
    extra = ONE
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "Log" and c.denominator == 1:
            # exp(n*log u) = u^n   (u > 0 is recorded by Log)
            u = ATOMS[m[0][0]].data
            extra = mul(extra, _ipow(u, int(c)) if c > 0 else _ipow(recip(u), int(-c)))
            continue
        n = 1
        if c < 0:
            n, c = -1, -c
        if c.denominator == 1 and m != ():
            n *= int(c)
            c = Fr(1)
        a = mk_atom("E", Poly({m: c}), True)
        r[a] = r.get(a, 0) + n
    base = Poly({tuple(sorted((a, e) for a, e in r.items() if e)): Fr(1)})
    return mul(base, extra)


def is_pos_atom(a):
    return ATOMS[a].pos


def Log(u):
    c = u.const()
    if c is not None:
        if c <= 0:
            raise ValueError("log of nonpositive constant")
        if c == 1:
            return ZERO
        if c == 10:
            return LN10
        k = 0
        while c.denominator == 1 and c % 10 == 0:
            c /= 10
            k += 1
        while c.numerator == 1 and c.denominator % 10 == 0:
            c *= 10
            k -= 1
        if c == 1:
            return LN10 * k
        if k:
            return LN10 * k + Log(const(c))
        return atom_poly(mk_atom("Log", u))
    side("log", gt(u, ZERO))
    g, lead, q = _content(u)
    out = ZERO
    rem = []
    for a, e in g:
        at = ATOMS[a]
        if at.kind == "E":
            out = out + at.data * e
        elif at.pos:
            out = out + atom_poly(mk_atom("Log", atom_poly(a))) * e
        else:
            rem.append((a, e))
    if lead > 0:
        if lead != 1:
            out = out + Log(const(lead))
        lead = Fr(1)
    else:
        out = out + (Log(const(-lead)) if lead != -1 else ZERO)
        lead = Fr(-1)
    core = mul(Poly({tuple(rem): lead}), q)
    if core.const() == 1:
        return out
    return out + atom_poly(mk_atom("Log", core))


def L(z):
    """logistic"""
    c = z.const()
    if c is not None and c == 0:
        return const(Fr(1, 2))
    if len(z.t) == 1:
        (m, c), = z.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "Log" and abs(c) == 1:
            u = ATOMS[m[0][0]].data
            return div(u, ONE + u) if c == 1 else div(ONE, ONE + u)
    # sums of logs (log of a product that was split)
    if z.t and all(len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "Log"
                   and c.denominator == 1 for m, c in z.t.items()):
        u = E(z)
        return div(u, ONE + u)
    s, zz = _sgn_canon(z)
    a = atom_poly(mk_atom("L", zz, True))
    return a if s > 0 else ONE - a


def tanh(x):
    return L(x * 2) * 2 - 1


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fr(n, d))
    else:
        side("sqrt", ge(p, ZERO))
    return atom_poly(mk_atom("sqrt", p))


def uf(name, *args, pos=False):
    return atom_poly(mk_atom("uf", (name,) + tuple(args), pos))


def log10(p):
    return Log(p) * INVLN10


def pow10(p):
    return E(p * LN10)


def power(b, e):
    ce = e.const()
    if ce is not None and ce.denominator == 1:
        n = int(ce)
        if n >= 0:
            return _ipow(b, n)
        return div(ONE, _ipow(b, -n))
    cb = b.const()
    if cb is not None:
        if cb == 10:
            return pow10(e)
        if cb > 0:
            return E(e * Log(b))
        raise NotImplementedError("power of nonpositive constant")
    if ce is not None and ce == Fr(1, 2):
        return sqrt(b)
    return E(e * Log(b))


# ------------------------------------------------------------------- booleans
# True | False | ('c', op, poly) with op in '>','>=','==' (poly op 0)
# | ('not', b) | ('and', frozenset) | ('or', frozenset) | ('bv', name)
class BoolAtomError(Exception):
    pass


def _mono_gcd(ps):
    """largest monomial of positive atoms (positive powers) dividing every term"""
    g = None
    for p in ps:
        for m in p.t:
            d = {a: e for a, e in m if e > 0 and ATOMS[a].pos}
            g = d if g is None else {a: min(e, d[a]) for a, e in g.items() if a in d}
            if not g:
                return ()
    return tuple(sorted(g.items()))


def _div_mono(p, g):
    if not g:
        return p
    return mul(p, Poly({tuple((a, -e) for a, e in g): Fr(1)}))


def _exps(m):
    """exponent of a monomial of exponentials, None otherwise"""
    out = ZERO
    for a, e in m:
        if ATOMS[a].kind != "E":
            return None
        out = out + ATOMS[a].data * e
    return out


def _ratio(m1, m2):
    """log of the ratio of two monomials of positive atoms when only exponentials differ"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) - e
    return _exps([(a, e) for a, e in d.items() if e])


def cmp(op, p):
    c = p.const()
    if c is not None:
        return {">": c > 0, ">=": c >= 0, "==": c == 0}[op]
    if len(p.t) <= 2 and all(ATOMS[a].pos for m in p.t for a, _ in m):
        # the sign of one positive monomial, or the order of two
        (m1, c1), *rest = p.t.items()
        if not rest:
            return {">": c1 > 0, ">=": c1 > 0, "==": False}[op]
        (m2, c2), = rest
        if (c1 > 0) == (c2 > 0):
            return {">": c1 > 0, ">=": c1 > 0, "==": False}[op]
        if c1 == -c2:
            d = _ratio(m1, m2)
            if d is not None:
                d = d if c1 > 0 else -d
                return cmp(op, _div_mono(d, _mono_gcd([d])))
    lead = p.t[max(p.t, key=_mkey)]
    if op == "==":
        return ("c", op, Poly({m: c / lead for m, c in p.t.items()}))
    s = abs(lead)
    p2 = Poly({m: c / s for m, c in p.t.items()})
    if lead < 0:
        # p>0  <=> not(-p>=0)
        n = -p2
        return Not(("c", ">=" if op == ">" else ">", n))
    return ("c", op, p2)


def gt(a, b):
    return cmp(">", a - b)


def ge(a, b):
    return cmp(">=", a - b)


def lt(a, b):
    return gt(b, a)


def le(a, b):
    return ge(b, a)


def eq(a, b):
    return cmp("==", a - b)


def ne(a, b):
    return Not(eq(a, b))


def Not(b):
    if b is True:
        return False
    if b is False:
        return True
    if b[0] == "not":
        return b[1]
    return ("not", b)


def And(*bs):
    s = set()
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        if b[0] == "and":
            s |= b[1]
        else:
            s.add(b)
    if any(Not(b) in s for b in s):
        return False
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def Or(*bs):
    return Not(And(*[Not(b) for b in bs])) if len(bs) != 1 else bs[0]


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def bvar(name):
    return ("bv", name)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c[0] == "not":
        c, a, b = c[1], b, a
    if c[0] == "c" and c[1] != ">=":
        # the branches coincide where the condition's polynomial vanishes
        d, q = a - b, c[2]
        if len(d.t) == len(q.t):
            m0 = max(q.t, key=_mkey)
            k = d.t.get(m0)
            if k is not None and all(d.t.get(m) == k * v / q.t[m0] for m, v in q.t.items()):
                if c[1] == "==":
                    return b
                c = ("c", ">=", q)
    return atom_poly(mk_atom("ite", (c, a, b)))


def bite(c, a, b):
    return Or(And(c, a), And(Not(c), b))


def _extremum(a, b, pick):
    """max or min; a common positive factor is taken out and exponentials are compared by their exponents"""
    if len(a.t) == 1 and len(b.t) == 1:
        (m1, c1), = a.t.items()
        (m2, c2), = b.t.items()
        if c1 == c2 and c1 > 0 and all(ATOMS[x].pos for m in (m1, m2) for x, _ in m):
            com = tuple((x, e) for x, e in m1 if (x, e) in m2)
            e1, e2 = _exps([t for t in m1 if t not in com]), _exps([t for t in m2 if t not in com])
            if e1 is not None and e2 is not None and e1 != e2:
                g = _mono_gcd([e1, e2])
                x = mul(pick(_div_mono(e1, g), _div_mono(e2, g)), Poly({g: Fr(1)}))
                return mul(E(x), Poly({com: c1}))
    return None


def pmax(a, b):
    r = _extremum(a, b, pmax)
    return ite(ge(a, b), a, b) if r is None else r


def pmin(a, b):
    r = _extremum(a, b, pmin)
    return ite(ge(a, b), b, a) if r is None else r


# ------------------------------------------------------------------- bounds
BOUNDS = {}         # atom id -> (lo, hi) declared for a variable, None where unbounded
_INF = float("inf")


def _dn(x):
    return x if abs(x) == _INF else x - abs(x) * 1e-12 - 1e-300


def _up(x):
    return x if abs(x) == _INF else x + abs(x) * 1e-12 + 1e-300


def _exp(x):
    return math.exp(x) if x < 700 else _INF


def _imul(a, b):
    v = [0.0 if (x == 0 or y == 0) else x * y for x in a for y in b]
    return _dn(min(v)), _up(max(v))


def ivl_atom(a, memo):
    r = memo.get(a)
    if r is not None:
        return r
    at = ATOMS[a]
    r = (0.0 if at.pos else -_INF, _INF)
    if a == LN10_ID:
        r = (2.302585, 2.302586)
    elif a in BOUNDS:
        lo, hi = BOUNDS[a]
        r = (r[0] if lo is None else float(lo), _INF if hi is None else float(hi))
    elif at.kind == "E":
        lo, hi = ivl(at.data, memo)
        r = (_dn(_exp(lo)) if lo > -_INF else 0.0, _up(_exp(hi)))
        r = (max(r[0], 0.0), r[1])
    elif at.kind == "Log":
        lo, hi = ivl(at.data, memo)
        r = (_dn(math.log(lo)) if 0 < lo < _INF else -_INF, _up(math.log(hi)) if 0 < hi < _INF else _INF)
    elif at.kind == "L":
        r = (0.0, 1.0)
    elif at.kind == "ite":
        c, x, y = at.data
        (a1, b1), (a2, b2) = ivl(x, memo), ivl(y, memo)
        r = min(a1, a2), max(b1, b2)
        if c is not True and c is not False and c[0] == "c" and c[1] in (">", ">="):
            if c[2] == x - y:        # a maximum
                r = max(a1, a2), max(b1, b2)
            elif c[2] == y - x:
                r = min(a1, a2), min(b1, b2)
        elif c is not True and c is not False and c[0] == "not" and c[1][0] == "c" and c[1][1] in (">", ">="):
            if c[1][2] == y - x:
                r = max(a1, a2), max(b1, b2)
            elif c[1][2] == x - y:
                r = min(a1, a2), min(b1, b2)
    memo[a] = r
    return r


def ivl(p, memo):
    """an interval containing the polynomial wherever the variables are within their declared bounds"""
    lo = hi = 0.0
    for m, c in p.t.items():
        t = (float(c), float(c))
        for a, e in m:
            b = ivl_atom(a, memo)
            if e < 0:
                if b[0] <= 0 <= b[1] and not (b[0] == 0 and ATOMS[a].pos):
                    return -_INF, _INF
                b = (_dn(1 / b[1]) if b[1] != _INF else 0.0, _up(1 / b[0]) if b[0] != 0 else _INF)
            if abs(e) % 2 == 0 and b[0] < 0:
                b = (0.0 if b[1] > 0 else b[1], max(-b[0], b[1])) if b[1] >= 0 else (-b[1], -b[0])
            for _ in range(int(abs(e))):
                t = _imul(t, b)
        lo, hi = _dn(lo + t[0]), _up(hi + t[1])
    return (lo, hi) if lo == lo and hi == hi else (-_INF, _INF)


def decide(b):
    """True or False where the declared bounds settle a comparison, else the condition itself"""
    if b is True or b is False or not BOUNDS:
        return b
    neg, c = (True, b[1]) if b[0] == "not" else (False, b)
    if c[0] != "c":
        return b
    lo, hi = ivl(c[2], {})
    v = None
    if c[1] == "==":
        v = False if (lo > 0 or hi < 0) else None
    elif lo > 0:
        v = True
    elif hi < 0:
        v = False
    return b if v is None else (v != neg)


# ------------------------------------------------------------------ traversal
def poly_atoms(p):
    return {a for m in p.t for a, _ in m}


def bool_polys(b, out):
    if b is True or b is False:
        return
    if b[0] == "c":
        out.append(b[2])
    elif b[0] == "not":
        bool_polys(b[1], out)
    elif b[0] in ("and", "or"):
        for x in b[1]:
            bool_polys(x, out)


def children(at):
    """polys and bools directly below an atom"""
    if at.kind in ("E", "L", "Log", "sqrt", "Q"):
        return [at.data], []
    if at.kind == "ite":
        c, a, b = at.data
        return [a, b], [c]
    if at.kind == "uf":
        return [x for x in at.data[1:] if isinstance(x, Poly)], []
    return [], []


def closure(polys, bools=()):
    """all atom ids reachable"""
    seen = set()
    st = list(polys)
    for b in bools:
        bool_polys(b, st)
    while st:
        p = st.pop()
        for a in poly_atoms(p):
            if a not in seen:
                seen.add(a)
                ps, bs = children(ATOMS[a])
                st.extend(ps)
                for b in bs:
                    bool_polys(b, st)
    return seen


def subst(p, vmap=None, conds=None, memo=None):
    """rebuild p replacing atoms (vmap: atom id -> Poly) and deciding
    conditions (conds: function Bool -> True/False/None)."""
    if memo is None:
        memo = {}
    return _subst_p(p, vmap or {}, conds, memo)


def _subst_p(p, vmap, conds, memo):
    if p in memo:
        return memo[p]
    if not any(_needs(a, vmap, conds, memo) for a in poly_atoms(p)):
        memo[p] = p
        return p
    parts = []
    for m, c in p.t.items():
        r = const(c)
        for a, e in m:
            v = _subst_a(a, vmap, conds, memo)
            if e > 0:
                r = mul(r, _ipow(v, e))
            else:
                r = div(r, _ipow(v, -e))
        parts.append(r)
    r = psum(parts)
    memo[p] = r
    return r


def _needs(a, vmap, conds, memo):
    k = ("need", a)
    if k in memo:
        return memo[k]
    if a in vmap:
        memo[k] = True
        return True
    at = ATOMS[a]
    ps, bs = children(at)
    r = (at.kind == "ite" and conds is not None)
    if not r:
        lst = list(ps)
        for b in bs:
            bool_polys(b, lst)
        r = any(_needs(x, vmap, conds, memo) for q in lst for x in poly_atoms(q))
    memo[k] = r
    return r


def _subst_a(a, vmap, conds, memo):
    k = ("a", a)
    if k in memo:
        return memo[k]
    if a in vmap:
        r = vmap[a]
    else:
        at = ATOMS[a]
        if at.kind in ("E", "L", "Log", "sqrt", "Q"):
            d = _subst_p(at.data, vmap, conds, memo)
            r = {"E": E, "L": L, "Log": Log, "sqrt": sqrt, "Q": lambda x: x}[at.kind](d)
        elif at.kind == "ite":
            c, x, y = at.data
            c2 = subst_b(c, vmap, conds, memo)
            if c2 is True:
                r = _subst_p(x, vmap, conds, memo)
            elif c2 is False:
                r = _subst_p(y, vmap, conds, memo)
            else:
                r = ite(c2, _subst_p(x, vmap, conds, memo), _subst_p(y, vmap, conds, memo))
        elif at.kind == "uf":
            r = uf(at.data[0], *[_subst_p(x, vmap, conds, memo) if isinstance(x, Poly) else x
                                 for x in at.data[1:]], pos=at.pos)
        else:
            r = atom_poly(a)
    memo[k] = r
    return r


def subst_b(b, vmap, conds, memo):
    if b is True or b is False:
        return b
    if conds is not None:
        d = conds(b)
        if d is not None:
            return d
    if b[0] == "c":
        r = cmp(b[1], _subst_p(b[2], vmap, conds, memo))
        if conds is not None and r is not True and r is not False:
            d = conds(r)
            if d is not None:
                return d
        return r
    if b[0] == "not":
        return Not(subst_b(b[1], vmap, conds, memo))
    if b[0] == "and":
        return And(*[subst_b(x, vmap, conds, memo) for x in b[1]])
    return b


def ite_conds(polys, bools=()):
    """primitive conditions of all reachable ites"""
    out = []
    seen = set()

    def prim(b):
        if b is True or b is False:
            return
        if b[0] in ("c", "bv"):
            if b not in seen:
                seen.add(b)
                out.append(b)
        elif b[0] == "not":
            prim(b[1])
        else:
            for x in sorted(b[1], key=repr):
                prim(x)
    for a in sorted(closure(polys, bools)):
        at = ATOMS[a]
        if at.kind == "ite":
            prim(at.data[0])
    for b in bools:
        pass
    return out


# ---------------------------------------------------------- numeric evaluation
TABLES = []          # interpolation tables: (xp tuple, fp tuple)


def _num_interp(d, f, memo):
    xp, fp = TABLES[d[0]]
    kx = ("table", d[0])
    if kx not in memo:
        memo[kx] = ([f(q) for q in xp], [f(q) for q in fp])
    xs, fs = memo[kx]
    x = f(d[1])
    if x <= xs[0]:
        return fs[0]
    if x >= xs[-1]:
        return fs[-1]
    i = bisect.bisect_right(xs, x)
    i = min(max(i, 1), len(xs) - 1)
    dx = xs[i] - xs[i - 1]
    return fs[i] if dx == 0 else fs[i - 1] + (x - xs[i - 1]) / dx * (fs[i] - fs[i - 1])


def _erfinv(y):
    from scipy.special import erfinv
    return float(erfinv(y))


NUM_UF = {
    "interp": _num_interp,
    "erf": lambda d, f, m: math.erf(f(d[0])),
    "Phi": lambda d, f, m: 0.5 * math.erfc(-f(d[0]) / math.sqrt(2.0)),
    "erf_inv": lambda d, f, m: _erfinv(f(d[0])),
    "floor": lambda d, f, m: math.floor(f(d[0])),
}


def num(p, env, memo=None):
    """float evaluation; env: atom id -> float for var/uf atoms"""
    if memo is None:
        memo = {}
    s = 0.0
    for m, c in p.t.items():
        t = c.numerator / c.denominator if abs(c.numerator) < 10**300 else float(c)
        for a, e in m:
            v = num_a(a, env, memo)
            t *= v ** e if not (v == 0 and e < 0) else math.nan
        s += t
    return s


def num_a(a, env, memo):
    if a in env:
        return env[a]
    if a in memo:
        return memo[a]
    at = ATOMS[a]
    k = at.kind
    if k == "const":
        r = _LN10F
    elif k == "E":
        x = num(at.data, env, memo)
        r = math.exp(x) if x < 700 else math.inf
    elif k == "L":
        x = num(at.data, env, memo)
        r = 1 / (1 + math.exp(-x)) if x > -700 else 0.0
    elif k == "Log":
        x = num(at.data, env, memo)
        r = math.log(x) if x > 0 else math.nan
    elif k == "sqrt":
        x = num(at.data, env, memo)
        r = math.sqrt(x) if x >= 0 else math.nan
    elif k == "Q":
        r = num(at.data, env, memo)
    elif k == "ite":
        c, x, y = at.data
        r = num(x, env, memo) if num_b(c, env, memo) else num(y, env, memo)
    elif k == "uf" and at.data[0] in NUM_UF:
        r = NUM_UF[at.data[0]](at.data[1:], lambda q: num(q, env, memo), memo)
    else:
        raise KeyError(f"no value for {at}")
    memo[a] = r
    return r


def num_b(b, env, memo=None):
    if memo is None:
        memo = {}
    if b is True or b is False:
        return b
    if b[0] == "c":
        v = num(b[2], env, memo)
        return {">": v > 0, ">=": v >= 0, "==": v == 0}[b[1]]
    if b[0] == "not":
        return not num_b(b[1], env, memo)
    if b[0] == "and":
        return all(num_b(x, env, memo) for x in b[1])
    if b[0] == "bv":
        return env[b]
    raise BoolAtomError(b)


# -------------------------------------------------------------------- printing
def show_atom(at):
    if at.kind in ("var", "const"):
        return str(at.data)
    if at.kind == "ite":
        return f"ite({show_b(at.data[0])}, {at.data[1]}, {at.data[2]})"
    if at.kind == "uf":
        return f"{at.data[0]}({', '.join(map(str, at.data[1:]))})"
    return f"{at.kind}({at.data})"


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: _mkey(x[0])):
        f = "*".join(show_atom(ATOMS[a]) + (f"^{e}" if e != 1 else "") for a, e in m)
        out.append(f"{c}" + ("*" + f if f else ""))
    return " + ".join(out)


def show_b(b):
    if b is True or b is False:
        return str(b)
    if b[0] == "c":
        return f"({b[2]} {b[1]} 0)"
    if b[0] == "not":
        return f"!{show_b(b[1])}"
    if b[0] == "bv":
        return str(b[1])
    return "(" + f" {b[0]} ".join(show_b(x) for x in b[1]) + ")"
