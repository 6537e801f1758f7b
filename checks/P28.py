from _popmodel import *
from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tpc0, utp_pdf_kernels as utpk
from diffmah.diffmahpop_kernels import ftpt0_cens as ft, early_index_pop as eip

ck = Check("P28", "Peak-time densities are proper; early fractions and slopes stay legal",
           bounds="location in [0.15,0.95] and width in [0.1,0.95] of the truncated normal, any abscissa in its support, any "
                  "age in [5,20] Gyr; every parameter in its published range; log10 mass in [8,16]; times in [0.5,20] Gyr",
           outside="floating-point rounding; the density outside its support",
           assumptions=["real arithmetic", "a uniform draw is an arbitrary number in [0,1)",
                        "the standard normal CDF is increasing with values in (0,1)",
                        "jax.scipy's truncated normal density and CDF are the textbook expressions"])
LO, HI = X.Fr("0.1"), X.Fr(1)


def Phi(x):
    if isinstance(x, Poly):
        return X.uf("Phi", x)
    import math
    return 0.5 * math.erfc(-x / math.sqrt(2))


def quot(a, b):
    return X.div(a, b) if isinstance(a, Poly) or isinstance(b, Poly) else a / b


def cdf(x, loc, s):
    a, b = quot(LO - loc, s), quot(HI - loc, s)
    return quot(Phi(quot(x - loc, s)) - Phi(a), Phi(b) - Phi(a))


def pdf(x, loc, s):
    a, b, z = quot(LO - loc, s), quot(HI - loc, s), quot(x - loc, s)
    e = X.E(-z * z * X.const(X.Fr(1, 2)) - H.jx.HALF_LOG_2PI) if isinstance(z, Poly) else float(
        np.exp(-z * z / 2) / np.sqrt(2 * np.pi))
    return quot(e, s * (Phi(b) - Phi(a)))


def shape(c):
    return c.real("loc", 0.15, 0.95), c.real("scale", 0.1, 0.95)


@ck.scenario
def unit_interval(c):
    """the density and CDF in units of the halo's time"""
    loc, s = shape(c)
    x = c.real("x", 0.1001, 0.9999)
    c.check("density", eq(c.call(utpk._tp_pdf_kern, x, (loc, s)), pdf(x, loc, s)), tol=1e-3)
    F = c.call(utpk._tp_cdf_kern, x, (loc, s))
    c.check("cumulative", eq(F, cdf(x, loc, s)), tol=1e-4)
    c.check("range", within(F, 0, 1), tol=1e-5)


def legacy(c, s=""):
    k = Comp("t_peak_kernels.tp_pdf_cens")
    p = k.PT(*[c.real(f + s, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])
    return p


def o_width(p, lgm, t_obs, t0):
    return (sigmoid(lgm, fr("12.5"), 2, p.tpck_scale_mh_lo, p.tpck_scale_mh_hi)
            + sigmoid(t_obs, t0 / 2, 1, p.tpck_scale_boost_early, 0))


def halo(c, s=""):
    return c.real("lgm" + s, 8, 16), c.real("t_obs" + s, 0.5, 20)


@ck.scenario
def physical_time(c):
    """the density and CDF of a central's peak time itself"""
    p, (lgm, t_obs) = legacy(c), halo(c)
    t0, x = c.real("t0", 5, 20), c.real("x", 0.1001, 0.9999)
    s, loc = o_width(p, lgm, t_obs, t0), fr("0.95") * one(lgm)
    c.check("density", eq(c.call(tpc0._t_peak_cen_pdf_singlehalo_kern, p, lgm, t_obs, x * t0, t0) * t0, pdf(x, loc, s)),
            tol=1e-3)
    c.check("cumulative", eq(c.call(tpc0._t_peak_cen_cdf_singlehalo_kern, p, lgm, t_obs, x * t0, t0), cdf(x, loc, s)),
            tol=1e-3)


@ck.scenario
def cumulative_limits(c):
    p, (lgm, t_obs) = legacy(c), halo(c)
    t0, x, y = c.real("t0", 5, 20), c.real("x", 0, 1), c.real("y", 0, 1)
    F = lambda v: c.call(tpc0._t_peak_cen_cdf_singlehalo_kern, p, lgm, t_obs, v, t0)  # noqa
    c.check("range", within(F(x * t0), 0, 1), tol=1e-5)
    c.check("none_before_a_tenth", Implies(le(x, fr("0.0999") * one(x)), eq(F(x * t0), 0)), tol=1e-5)
    c.check("all_by_today", eq(F(t0 * fr("1.0001")), 1), tol=1e-5)
    c.check("increasing", Implies(le(x, y), le(F(x * t0), F(y * t0))), tol=1e-5)


@ck.scenario
def legacy_draws(c):
    """central peak times of the truncated-normal model"""
    c.assume_tables = True
    p = legacy(c)
    t0 = c.real("t0", 5, 20)
    lgm, t_obs = c.vec("lgm", 2, 8, 16), c.vec("t_obs", 2, 0.5, 20)
    tp = c.call(tpc0.mc_tpeak_cens, p, c.key(), lgm, t_obs, t0)
    c.check("range", And(*[within(tp[i], fr("0.1") * t0, t0) for i in range(2)]), tol=1e-4)
    us = [c.draw(i) for i in range(2)]
    c.check("distinct_draws", TRUE if not c.sym or len(set(us)) == 2 else FALSE)
    for i in range(2):
        x = c.call(utpk.mc_tp_pdf_singlesat, c.key(f"k{i}"), utpk.UTP_Params(
            fr("0.95") * one(t0), o_width(p, lgm[i], t_obs[i], t0)))
        c.check(f"own_distribution_{i}", Implies(eq(c.draw(0), us[i]), eq(tp[i], x * t0)), tol=1e-4)
        y = c.call(tpc0.mc_tpeak_singlecen, p, c.key(f"s{i}"), lgm[i], t_obs[i], t0)
        c.check(f"single_halo_{i}", Implies(eq(c.draw(0), us[i]), eq(tp[i], y)), tol=1e-4)


@ck.scenario
def still_growing_fraction(c):
    """probability that a central peaks today"""
    k = Comp("ftpt0_cens")
    p = k.PT(*[c.real(f, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])
    (m1, t1), (m2, t2) = halo(c, "1"), halo(c, "2")
    lo, hi = fr("0.01") * one(m1), fr("0.99") * one(m1)
    f = lambda m, t: c.call(ft._ftpt0_kernel, p, m, t)  # noqa
    a, b = f(m1, t1), f(m2, t2)
    c.check("value", eq(a, clip(clip(p.ftpt0_c0_c0 + p.ftpt0_c0_c1 * (t1 - 10), lo, hi)
                                + p.ftpt0_c1 * (m1 - 12), lo, hi)), tol=1e-5)
    c.check("range", within(a, lo, hi), tol=1e-6)
    c.check("rises_with_mass_and_time", Implies(And(le(m1, m2), le(t1, t2)), le(a, b)), tol=1e-5)


@ck.scenario
def early_slope(c):
    """population model of the early index alone"""
    k = Comp("early_index_pop")
    p = k.PT(*[c.real(f, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])
    lgm, t_obs = halo(c)
    tp = c.real("t_peak", 0.5, 20)
    e = c.call(eip._pred_early_index_kern, p, lgm, t_obs, tp)
    ylo = sigmoid(tp, p.early_index_ylo_x0, 1, p.early_index_ylo_ylo, p.early_index_ylo_yhi)
    yhi = sigmoid(t_obs, p.early_index_yhi_x0, fr("0.5"), p.early_index_yhi_ylo, p.early_index_yhi_yhi)
    blo, bhi = dk.MAH_PBOUNDS.early_index
    eps = fr("0.001")
    c.check("value", eq(e, clip(sigmoid(lgm, p.early_index_lgm_x0, 1, ylo, yhi), (dec(blo) + eps) * one(lgm),
                                (dec(bhi) - eps) * one(lgm))), tol=1e-5)
    c.check("legal", And(lt(dec(blo) * one(lgm), e), lt(e, dec(bhi) * one(lgm))))


ck.finish()
