from _halo import *

ck = Check("P01", "Halo mass never decreases and is frozen after the peak time",
           bounds=HALO_BOUNDS + "; two times t1<=t2<=t0 per call (any pair of entries of a time array)",
           outside="floating-point rounding; whether the mass grows beyond the z=0 age (the model is only defined "
                   "as growing up to it)",
           assumptions=["real arithmetic; exp/log by their mathematical definition",
                        "time arrays are handled elementwise beyond the two entries shown"])


def _go(c, fn, rate=True):
    p, xp = halo(c)
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    c.assume(le(x1, x2))
    dm, lgm = fn(c, p, stack(t1, t2), lt0)
    c.check("nondecreasing", Implies(le(x2, lt0), le(lgm[0], lgm[1])), tol=1e-7)
    c.check("frozen", Implies(ge(x1, xp), eq(lgm[0], lgm[1])), tol=1e-7)
    c.check("at_most_today", Implies(And(le(x2, lt0)), le(lgm[1], p.logm0)), tol=1e-7)
    c.check("frozen_at_peak_value", Implies(And(eq(x1, xp)), eq(lgm[0], lgm[1])), tol=1e-7)
    if rate:
        c.check("rate_nonneg", Implies(le(x1, lt0), ge(dm[0], 0)))
        c.check("rate_zero_after_peak", Implies(gt(x1, xp), eq(dm[0], 0)))


@ck.scenario
def singlehalo(c):
    _go(c, lambda c, p, t, l: c.call(dk.mah_singlehalo, p, t, l))


@ck.scenario
def halopop(c):
    def f(c, p, t, l):
        dm, lgm = c.call(dk.mah_halopop, dk.DiffmahParams(*[stack(x) for x in p]), t, l)
        return dm[0], lgm[0]
    _go(c, f)


@ck.scenario
def at_t_obs(c):
    _go(c, lambda c, p, t, l: (None, c.call(dk.logmh_at_t_obs, p, t, l)), rate=False)


ck.finish()
