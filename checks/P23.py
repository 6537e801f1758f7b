from _fit import *
from diffmah import utils as ut

ck = Check("P23", "Sigmoids interpolate and invert; matrix helpers follow their documented layout",
           bounds="any sigmoid with |steepness*(x-x0)| <= 40 and distinct limits; triangular factors of dimension 1 to 4; "
                  "correlation matrices of dimension 1 to 3 (4 in the thorough tier) with any entries, any widths in "
                  "[1e-3,1e3]",
           outside="floating-point saturation of the sigmoid; larger matrices; zero widths", assumptions=["real arithmetic"])


def sig(c, pre=""):
    x, x0 = c.real(pre + "x", -50, 50), c.real("x0", -50, 50)
    k = c.real("k", -20, 20)
    lo, hi = c.real("lo", -50, 50), c.real("hi", -50, 50)
    c.assume(within(k * (x - x0), -40, 40))
    return x, x0, k, lo, hi


@ck.scenario
def interpolates(c):
    x, x0, k, lo, hi = sig(c)
    y = c.call(ut._sigmoid, x, x0, k, lo, hi)
    c.check("between", And(Implies(lt(lo, hi), And(lt(lo, y), lt(y, hi))), Implies(lt(hi, lo), And(lt(hi, y), lt(y, lo)))))
    c.check("flat", Implies(eq(lo, hi), eq(y, lo)))


@ck.scenario
def midpoint(c):
    x0, k, lo, hi = c.real("x0", -50, 50), c.real("k", -20, 20), c.real("lo", -50, 50), c.real("hi", -50, 50)
    c.check("middle", eq(c.call(ut._sigmoid, x0, x0, k, lo, hi), (lo + hi) / 2), tol=1e-6)


@ck.scenario
def symmetric(c):
    x, x0, k, lo, hi = sig(c)
    a, b = c.call(ut._sigmoid, x, x0, k, lo, hi), c.call(ut._sigmoid, 2 * x0 - x, x0, k, lo, hi)
    c.check("about_the_middle", eq(a + b, lo + hi), tol=1e-6)
    c.check("logistic", eq(a, H.sigmoid(x, x0, k, lo, hi)), tol=1e-6)


@ck.scenario
def rises(c):
    x, x0, k, lo, hi = sig(c)
    z = c.real("z", -50, 50)
    c.assume(within(k * (z - x0), -40, 40))
    c.assume(lt(x, z))
    a, b = c.call(ut._sigmoid, x, x0, k, lo, hi), c.call(ut._sigmoid, z, x0, k, lo, hi)
    c.check("with_x", And(Implies(And(lt(0.0, k), lt(lo, hi)), lt(a, b)), Implies(And(lt(k, 0.0), lt(lo, hi)), lt(b, a))))


@ck.scenario
def inverse(c):
    x, x0, k, lo, hi = sig(c)
    c.assume(Not(eq(lo, hi)))
    c.assume(Not(eq(k, 0.0)))
    c.check("of_sigmoid", eq(c.call(ut._inverse_sigmoid, c.call(ut._sigmoid, x, x0, k, lo, hi), x0, k, lo, hi), x), tol=1e-4)


@ck.scenario
def inverse2(c):
    x0, k = c.real("x0", -50, 50), c.real("k", -20, 20)
    lo, w, f = c.real("lo", -50, 50), c.real("w", -50, 50), c.real("f", 1e-6, 1 - 1e-6)
    c.assume(Not(eq(w, 0.0)))
    c.assume(Not(eq(k, 0.0)))
    y = lo + f * w
    c.check("sigmoid_of", eq(c.call(ut._sigmoid, c.call(ut._inverse_sigmoid, y, x0, k, lo, lo + w), x0, k, lo, lo + w), y),
            tol=1e-4)


@ck.scenario
def slope(c):
    x, x0, k, lo, hi = sig(c)
    xtp, ytp = c.real("xtp", -50, 50), c.real("ytp", -50, 50)
    c.check("through_the_pivot", eq(c.call(ut._sig_slope, xtp, xtp, ytp, x0, k, lo, hi), ytp), tol=1e-6)
    y = c.call(ut._sig_slope, x, xtp, ytp, x0, k, lo, hi)
    s = c.call(ut._sigmoid, x, x0, k, lo, hi)
    c.check("local_slope", eq(y, ytp + s * (x - xtp)), tol=1e-6)


def chol(n):
    def sc(c):
        p = [c.real(f"p{k}", -100, 100) for k in range(n * (n + 1) // 2)]
        m = arr_(c.call(ut.get_cholesky_from_params, stack(*p)))
        c.check("square", TRUE if m.shape == (n, n) else FALSE)
        j = n
        for a in range(n):
            c.check(f"diagonal{a}", eq(m[a, a], p[a]))
            for b in range(n):
                if b < a:
                    c.check(f"below{a}{b}", eq(m[a, b], p[j]))
                    j += 1
                elif b > a:
                    c.check(f"above{a}{b}", eq(m[a, b], 0.0))
    return sc


for n in range(1, 6 if THOROUGH else 5):
    ck.scenario(chol(n), f"triangular{n}")


def matrix(c, n, name, lo, hi):
    r = np.empty((n, n), dtype=object if c.sym else float)
    for a in range(n):
        for b in range(a + 1):
            r[a, b] = r[b, a] = c.real(f"{name}{a}{b}", lo, hi)
    return r


def cov(n):
    def sc(c):
        corr = matrix(c, n, "r", -1, 1)
        for a in range(n):
            corr[a, a] = H.X.ONE if c.sym else 1.0
        e = [c.real(f"e{a}", 1e-3, 1e3) for a in range(n)]
        m = arr_(c.call(ut.covariance_from_correlation, corr, stack(*e)))
        for a in range(n):
            for b in range(n):
                c.check(f"covariance{a}{b}", eq(m[a, b], e[a] * e[b] * corr[a, b]), tol=1e-6)
        back = arr_(c.call(ut.correlation_from_covariance, m))
        for a in range(n):
            for b in range(n):
                c.check(f"recovered{a}{b}", eq(back[a, b], corr[a, b]), tol=1e-5)
    return sc


def corr(n):
    def sc(c):
        m = matrix(c, n, "c", -1e3, 1e3)
        s = [c.real(f"s{a}", 1e-2, 30) for a in range(n)]
        for a in range(n):
            m[a, a] = s[a] * s[a]
        r = arr_(c.call(ut.correlation_from_covariance, m))
        for a in range(n):
            c.check(f"unit{a}", eq(r[a, a], 1.0), tol=1e-6)
            for b in range(n):
                c.check(f"scaled{a}{b}", eq(r[a, b] * s[a] * s[b], m[a, b]), tol=1e-3)
    return sc


for n in range(1, 5 if THOROUGH else 4):
    ck.scenario(cov(n), f"covariance{n}")
    ck.scenario(corr(n), f"correlation{n}")
ck.finish()
