from _popmodel import *
from diffmah.diffmahpop_kernels import covariance_kernels as ck_
from diffmah.diffmahpop_kernels.covariance_kernels import _get_diffmahpop_cov

ck = Check("P11", "Scatter covariance is valid, with the named deviations and correlations",
           bounds="every covariance parameter vector in the published ranges; log10 mass in [8,16]; the full "
                  "population parameter set and the covariance component's own set",
           outside="floating-point rounding",
           assumptions=["real arithmetic", "a symmetric matrix with positive diagonal that is strictly diagonally "
                        "dominant after rescaling by a positive diagonal matrix is positive definite"])
NAMES = ("logm0", "logtc", "early", "late")
RHO = {(1, 0): "rho_logtc_logm0", (2, 0): "rho_early_logm0", (2, 1): "rho_early_logtc",
       (3, 0): "rho_late_logm0", (3, 1): "rho_late_logtc", (3, 2): "rho_late_early"}


def covp(c, full):
    if full:
        return pop(c, lambda f: f in ck_.CovParams._fields)
    b = bounds()
    return ck_.CovParams(*[c.real(f, *b[f]) for f in ck_.CovParams._fields])


for full in (False, True):
    def matrix(c, full=full):
        p = covp(c, full)
        lgm = c.real("lgm", 8, 16)
        cov = c.call(_get_diffmahpop_cov, p, lgm)
        s = [o_std(p, n, lgm) for n in NAMES]
        for i, n in enumerate(NAMES):
            c.check(f"variance_{n}", eq(cov[i, i], s[i] * s[i]), tol=1e-6)
            c.check(f"deviation_range_{n}", within(s[i], H.fr("0.01") * one(lgm), 100), tol=1e-6)
        for (i, j), r in RHO.items():
            c.check(f"correlation_{r}", eq(cov[i, j], g(p, r) * s[i] * s[j]), tol=1e-6)
            c.check(f"symmetric_{i}{j}", eq(cov[i, j], cov[j, i]), tol=1e-6)
        c.check("shape", TRUE if np.shape(cov) == (4, 4) else FALSE)
        for i in range(4):
            off = sum(quot(absval(cov[i, j]), s[j]) for j in range(4) if j != i)
            c.check(f"positive_definite_row{i}", lt(off, quot(cov[i, i], s[i])))
    ck.scenario(matrix, "full" if full else "component")



@ck.scenario
def monotone_in_mass(c):
    """the deviations run from their low-mass to their high-mass value"""
    p = covp(c, False)
    a, b = c.real("lgm_a", 8, 16), c.real("lgm_b", 8, 16)
    c.assume(le(a, b))
    A, Bm = c.call(_get_diffmahpop_cov, p, a), c.call(_get_diffmahpop_cov, p, b)
    for i, n in enumerate(NAMES):
        lo, hi = g(p, f"std_u_{n}_ylo"), g(p, f"std_u_{n}_yhi")
        c.check(f"rising_{n}", Implies(le(lo, hi), le(A[i, i], Bm[i, i])), tol=1e-6)
        c.check(f"falling_{n}", Implies(ge(lo, hi), ge(A[i, i], Bm[i, i])), tol=1e-6)


ck.finish()
