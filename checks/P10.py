from _popmodel import *
from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_sats as tps, utp_pdf_kernels as utpk

ck = Check("P10", "Satellite peak times follow a truncated normal within (0, t_obs]",
           bounds="every satellite population parameter in its published range; log10 mass in [8,16]; observation "
                  "time in [0.5,20] Gyr; location in [0.15,0.95] and width in [0.1,0.6] of the truncated normal; "
                  "every uniform draw in [0,1); the distribution is compared with the model at 5 abscissae, to 0.02 "
                  "in time and 0.002 in probability; populations of 2",
           outside="floating-point rounding; larger populations",
           assumptions=["real arithmetic", "a uniform draw is an arbitrary number in [0,1)",
                        "linear interpolation on an increasing table by its definition",
                        "the standard normal CDF is increasing with values in (0,1)",
                        "jax.scipy's truncated normal CDF is (Phi(z)-Phi(a))/(Phi(b)-Phi(a)) on [a,b]"])
LO, HI = X.Fr("0.1"), X.Fr(1)


def satp(c, s=""):
    k = Comp("t_peak_kernels.tp_pdf_sats")
    return k.PT(*[c.real(f + s, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])


def args(c, s=""):
    return c.real("lgm" + s, 8, 16), c.real("t_obs" + s, 0.5, 20)


def Phi(x):
    if isinstance(x, Poly):
        return X.uf("Phi", x)
    import math
    return 0.5 * math.erfc(-x / math.sqrt(2))


def quot(a, b):
    return X.div(a, b) if isinstance(a, Poly) or isinstance(b, Poly) else a / b


@ck.scenario
def location_and_width(c):
    p = satp(c)
    lgm, t_obs = args(c)
    loc = c.call(tps._get_utp_loc, p, lgm, t_obs)
    scale = c.call(tps._get_utp_scale, p, lgm, t_obs)
    c.check("loc", eq(loc, o_loc(p, lgm, t_obs)), tol=1e-6)
    c.check("scale", eq(scale, o_scale(p, lgm, t_obs)), tol=1e-6)
    c.check("loc_range", within(loc, fr("0.15") * one(lgm), fr("0.95") * one(lgm)), tol=1e-6)
    c.check("scale_range", within(scale, fr("0.1") * one(lgm), fr("0.6") * one(lgm)), tol=1e-6)


@ck.scenario
def draw_range(c):
    loc, scale = c.real("loc", 0.15, 0.95), c.real("scale", 0.1, 0.6)
    x = c.call(utpk.mc_tp_pdf_singlesat, c.key(), utpk.UTP_Params(loc, scale))
    c.check("range", within(x, fr("0.1") * one(x), 1), tol=1e-6)
    c.check("within_4_sigma", And(ge(x, loc - 4 * scale), le(x, loc + 4 * scale)), tol=1e-6)


WIDTHS = ("0.16", "0.25", "0.6") if not THOROUGH else ("0.12", "0.15", "0.2", "0.25", "0.35", "0.45", "0.6")
ABSC = ("0.3", "0.6", "0.9") if not THOROUGH else ("0.15", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "0.98")

for w in WIDTHS:
    def distribution(c, w=w):
        """x <= v exactly when the draw is below the truncated normal's CDF at v"""
        loc = c.real("loc", 0.15, 0.95)
        scale = X.const(X.Fr(w)) if c.sym else float(w)
        x = c.call(utpk.mc_tp_pdf_singlesat, c.key(), utpk.UTP_Params(loc, scale))
        u = c.draw(0)
        for q in ABSC:
            v = fr(q) * one(x)
            a, b = quot(LO - loc, scale), quot(HI - loc, scale)
            F = quot(Phi(quot(v - loc, scale)) - Phi(a), Phi(b) - Phi(a))
            cell = fr("0.02") * one(x)
            m = fr("0.002")     # tails beyond four sigma and float saturation of the CDF
            c.check(f"below_{q}", Implies(le(u, F - m), le(x, v + cell)), tol=1e-5)
            c.check(f"above_{q}", Implies(ge(u, F + m), ge(x, v - cell)), tol=1e-5)
    ck.scenario(distribution, f"width_{w}", sides=False)


@ck.scenario
def population(c):
    """each satellite's peak time is a draw of its own distribution, in (0.1, 1) of its observation time"""
    c.assume_tables = True
    p = satp(c)
    lgm, t_obs = c.vec("lgm", 2, 8, 16), c.vec("t_obs", 2, 0.5, 20)
    tp = c.call(tps.mc_tpeak_sats, p, c.key(), lgm, t_obs)
    c.check("range", And(*[within(tp[i], fr("0.1") * t_obs[i], t_obs[i]) for i in range(2)]), tol=1e-5)
    us = [c.draw(i) for i in range(2)]
    c.check("distinct_draws", TRUE if not c.sym or len(set(us)) == 2 else FALSE)
    for i in range(2):
        x = c.call(utpk.mc_tp_pdf_singlesat, c.key(f"k{i}"), utpk.UTP_Params(o_loc(p, lgm[i], t_obs[i]),
                                                                             o_scale(p, lgm[i], t_obs[i])))
        c.check(f"own_distribution_{i}", Implies(eq(c.draw(0), us[i]), eq(tp[i], x * t_obs[i])), tol=1e-5)
    for i in range(2):
        x = c.call(tps.mc_tpeak_singlesat, p, c.key(f"s{i}"), lgm[i], t_obs[i])
        c.check(f"single_halo_{i}", Implies(eq(c.draw(0), us[i]), eq(tp[i], x)), tol=1e-5)


ck.finish()
