from _pop import *
from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as tpc

ck = Check("P09", "Central peak times follow the modelled CDF and stay within (0, t0]",
           bounds="every parameter vector in the published ranges, log10 mass in [8,16], observation time in "
                  "[0.5,20] Gyr, t0 in [3,32] Gyr, every uniform draw in [0,1); the distribution is compared with "
                  "the model at 9 abscissae, to one table cell (0.006 t0); populations of 2",
           outside="floating-point rounding; larger populations",
           assumptions=["real arithmetic", "a uniform draw is an arbitrary number in [0,1)",
                        "linear interpolation on an increasing table by its definition"])
CELL = "0.006"
XS = [0.02, 0.1, 0.3, 0.5, 0.62, 0.75, 0.85, 0.93, 0.98] if not THOROUGH else [round(0.01 + 0.03 * i, 3) for i in range(33)]


def params(c):
    k = Comp("t_peak_kernels.tp_pdf_cens_flex")
    return k.PT(*[c.real(f, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])


def cdf(p, lgm, t_obs, x):
    """published model: probability that a central's peak time is below x*t0"""
    e = sigmoid(lgm, p.cen_tp_lgm_x0_x0, 1, p.cen_tp_x0_ylo_early, p.cen_tp_x0_yhi_early)
    l = sigmoid(lgm, p.cen_tp_lgm_x0_x0, 1, p.cen_tp_x0_ylo_late, p.cen_tp_x0_yhi_late)
    x0 = sigmoid(t_obs, p.cen_tp_t_obs_x0_x0, 2, e, l)
    return logistic(5 * (H.fr(str(x)) - x0))


def args(c, s=""):
    return c.real("lgm" + s, 8, 16), c.real("t_obs" + s, 0.5, 20)


@ck.scenario
def single(c):
    p = params(c)
    lgm, t_obs = args(c)
    t0 = c.real("t0", 3, 32)
    tp = c.call(tpc.mc_tpeak_singlecen, p, lgm, t_obs, c.key(), t0)
    c.check("range", And(le(H.fr("0.05") * t0, tp), le(tp, t0)), tol=1e-5)


@ck.scenario
def distribution(c):
    """tp <= x*t0 exactly when the draw is below the model CDF at x"""
    p = params(c)
    lgm, t_obs = args(c)
    t0 = c.real("t0", 3, 32)
    tp = c.call(tpc.mc_tpeak_singlecen, p, lgm, t_obs, c.key(), t0)
    u = c.draw(0)
    for x in XS:
        F = cdf(p, lgm, t_obs, x)
        if x >= 0.06:
            c.check(f"above_{x}", Implies(ge(u, F), ge(tp, H.fr(str(round(x - float(CELL), 4))) * t0)), tol=1e-5)
        c.check(f"below_{x}", Implies(le(u, F), le(tp, H.fr(str(max(round(x + float(CELL), 4), 0.05))) * t0)), tol=1e-5)


@ck.scenario
def population(c):
    """population draws are the single-halo draw of each member, from its own key"""
    p = params(c)
    a, b = args(c, "_a"), args(c, "_b")
    t0 = c.real("t0", 3, 32)
    lgm, t_obs = stack(a[0], b[0]), stack(a[1], b[1])
    tp = c.call(tpc.mc_t_peak_cenpop, p, lgm, t_obs, c.key(), t0)
    us = [c.draw(0), c.draw(1)]
    c.check("range", And(le(H.fr("0.05") * t0, tp), le(tp, t0)), tol=1e-5)
    for k in (0, 1):
        for x in (0.3, 0.7):
            F = cdf(p, lgm[k], t_obs[k], x)
            c.check(f"member{k}_above_{x}", Implies(ge(us[k], F), ge(tp[k], H.fr(str(round(x - float(CELL), 4))) * t0)), tol=1e-5)
            c.check(f"member{k}_below_{x}", Implies(le(us[k], F), le(tp[k], H.fr(str(round(x + float(CELL), 4))) * t0)), tol=1e-5)


ck.finish()
