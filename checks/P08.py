from _popmodel import *

ck = Check("P08", "Mean halo parameters follow the population model and stay in the legal domain",
           bounds="every population parameter anywhere in its published range; observed log10 mass in [10,15]; "
                  "observation time in [1,15] Gyr; t0 in [10**0.5, 10**1.29] Gyr; every draw of the peak time",
           outside="floating-point rounding; observed masses and times for which the model's unclipped mean mass "
                   "leaves (0,17)",
           assumptions=["real arithmetic", "a uniform draw is an arbitrary number in [0,1)"])


def setup(c, kind):
    p = pop(c)
    lgm, t_obs = obs(c)
    lgt0 = c.real("lgt0", 0.5, 1.29)
    f = {"cens": mcc, "sats": mcs}[kind]._mean_diffmah_params
    e, l, fe = c.call(f, p, lgm, t_obs, c.key(), lgt0, stub_interp=True)
    return p, lgm, t_obs, lgt0, e, l, fe


for kind in KINDS:
    def model(c, kind=kind):
        p, lgm, t_obs, lgt0, e, l, fe = setup(c, kind)
        for cls, m in (("early", e), ("late", l)):
            tp = m.t_peak
            c.check(f"{cls}:logm0", eq(m.logm0, o_logm0(p, cls, kind, lgm, t_obs, tp)), tol=1e-5)
            c.check(f"{cls}:logtc", eq(m.logtc, o_logtc(p, cls, lgm, t_obs, tp)), tol=1e-5)
            c.check(f"{cls}:early_index", eq(m.early_index, o_early(p, cls, lgm, t_obs, tp)), tol=1e-5)
            c.check(f"{cls}:late_index", eq(m.late_index, o_late(p, cls, lgm)), tol=1e-5)
        c.check("frac_early", eq(fe, o_frac(p, lgm, t_obs)), tol=1e-6)
        c.check("one_peak_time", eq(e.t_peak, l.t_peak), tol=1e-6)

    def domain(c, kind=kind):
        p, lgm, t_obs, lgt0, e, l, fe = setup(c, kind)
        for cls, m in (("early", e), ("late", l)):
            c.check(f"{cls}:logtc", within(m.logtc, H.fr("-0.999") * one(lgm), H.fr("0.999") * one(lgm)), tol=1e-6)
            c.check(f"{cls}:early_index", within(m.early_index, 0.5, 4), tol=1e-6)
            c.check(f"{cls}:late_index", within(m.late_index, H.fr("0.101") * one(lgm), H.fr("0.2") * one(lgm)), tol=1e-6)
            c.check(f"{cls}:late_below_early", lt(m.late_index, m.early_index))
            c.check(f"{cls}:t_peak", And(lt(H.fr("0.05") * one(lgm), m.t_peak), lt(m.t_peak, 20)))
            c.check(f"{cls}:mass_not_below_observed", ge(m.logm0, lgm - 3))
        c.check("frac_early", within(fe, 0.25, 0.75), tol=1e-6)

    def finite(c, kind=kind):
        """the mean parameters can be unbounded and recovered, so the scatter is added to finite numbers"""
        p, lgm, t_obs, lgt0, e, l, fe = setup(c, kind)
        for cls, m in (("early", e), ("late", l)):
            c.assume(within(m.logm0, 1, 16.9))
            u = c.call(dk.get_unbounded_mah_params, m)
            q = c.call(dk.get_bounded_mah_params, u)
            c.check(f"{cls}:recovered", eq(stack(*q), stack(*m)), tol=1e-4)
    ck.scenario(model, "model:" + kind, sides=False)
    ck.scenario(domain, "domain:" + kind, sides=False)
    ck.scenario(finite, "finite:" + kind)


ck.finish()
