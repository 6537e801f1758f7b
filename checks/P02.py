from _halo import *

ck = Check("P02", "Mass history follows the rolling power law normalised at z=0",
           bounds=HALO_BOUNDS + "; two times per call",
           outside="floating-point rounding",
           assumptions=["real arithmetic; exp/log by their mathematical definition"])


def _go(c, fn):
    p, xp = halo(c, ordered=False)
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    lgm = fn(c, p, stack(t1, t2), lt0)
    for k, (t, x) in enumerate(((t1, x1), (t2, x2))):
        c.check(f"before_peak{k}", Implies(lt(x, xp), eq(lgm[k], oracle_lgm(p, x, lt0))), tol=1e-6)
        c.check(f"after_peak{k}", Implies(ge(x, xp), eq(lgm[k], oracle_lgm(p, xp, lt0))), tol=1e-6)
    c.check("normalised", Implies(And(eq(x1, lt0), gt(xp, lt0)), eq(lgm[0], p.logm0)), tol=1e-6)
    c.check("normalised_t_peak_today", Implies(And(eq(xp, lt0), ge(x1, lt0)), eq(lgm[0], p.logm0)), tol=1e-6)


@ck.scenario
def singlehalo(c):
    _go(c, lambda c, p, t, l: c.call(dk.mah_singlehalo, p, t, l)[1])


@ck.scenario
def halopop(c):
    _go(c, lambda c, p, t, l: c.call(dk.mah_halopop, dk.DiffmahParams(*[stack(x) for x in p]), t, l)[1][0])


@ck.scenario
def at_t_obs(c):
    _go(c, lambda c, p, t, l: c.call(dk.logmh_at_t_obs, p, t, l))


@ck.scenario
def exact_today(c):
    """evaluated exactly at today's age"""
    p, xp = halo(c)
    t0, x0 = c.time("t0", 0.5, 1.5)
    _, lgm = c.call(dk.mah_singlehalo, p, stack(t0), x0)
    c.check("logm0", Implies(ge(xp, x0), eq(lgm[0], p.logm0)), tol=1e-6)
    c.check("at_most_logm0", le(lgm[0], p.logm0), tol=1e-6)


ck.finish()
