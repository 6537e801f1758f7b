from _halo import *
import jax
from jax import numpy as jnp

ck = Check("P03", "Accretion rate is the time derivative of the mass history",
           bounds=HALO_BOUNDS + "; two times per call",
           outside="floating-point rounding; the rate exactly at t=t_peak may be either one-sided derivative",
           assumptions=["real arithmetic; exp/log by their mathematical definition",
                        "the derivative is taken by the real autodiff code traced through jax.grad and compared "
                        "with the analytic derivative of the mass that the same call returns"])


LN10 = H.fr("2.302585092994045684017991454684364")


def _grad(fn, p, t, l):
    """combined kernel plus the autodiff derivative of the mass it returns"""
    dm, lgm = fn(p, t, l)
    g = jax.vmap(jax.grad(lambda x: fn(p, x[None], l)[1][0]))(t)
    return dm, lgm, t * g


def _go(c, fn):
    p, xp = halo(c)
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    dm, lgm, tg = c.call(lambda p, t, l: _grad(fn, p, t, l), p, stack(t1, t2), lt0)
    for k, (t, x) in enumerate(((t1, x1), (t2, x2))):
        # t/M dM/dt from the returned rate and from the returned mass itself
        for n, side in (("before", lt(x, xp)), ("after", gt(x, xp))):
            c.check(f"derivative{k}_{n}", Implies(side, eq(dm[k] / pow10(lgm[k]) * t * 10**9, LN10 * tg[k])), tol=1e-5)
    for k, x in enumerate((x1, x2)):
        # dM/dt / M * t, in exact arithmetic, per year
        c.check(f"growing{k}", Implies(lt(x, xp), eq(dm[k] / pow10(lgm[k]) * pow10(x) * 10**9,
                                                     oracle_rate(p, x, lt0) / pow10(oracle_lgm(p, x, lt0))
                                                     * pow10(x) * 10**9)), tol=1e-5)
        c.check(f"zero_after{k}", Implies(gt(x, xp), eq(dm[k], 0)))
        c.check(f"nonneg{k}", Implies(le(x, lt0), ge(dm[k], 0)))
    c.check("positive", Implies(And(lt(x1, xp), le(x1, lt0)), gt(dm[0], 0)))


@ck.scenario
def singlehalo(c):
    _go(c, dk.mah_singlehalo)


@ck.scenario
def halopop(c):
    def f(p, t, l):
        d, m = dk.mah_halopop(dk.DiffmahParams(*[jnp.atleast_1d(x) for x in p]), t, l)
        return d[0], m[0]
    _go(c, f)


ck.finish()
