from _halo import *

ck = Check("P05", "Halo parameter transform stays in range, keeps late<=early, is invertible",
           bounds="every real unbounded 5-vector; every physical 5-vector strictly inside the documented ranges "
                  "with late<early",
           outside="floating-point saturation of the sigmoid for |u| so large that 1-sigmoid rounds to 0",
           assumptions=["real arithmetic; exp/log by their mathematical definition"])
LO = dict(logm0=0, logtc=-1, early_index=fr("0.1"), late_index=fr("0.1"), t_peak=fr("0.05"))
HI = dict(logm0=17, logtc=1, early_index=10, late_index=5, t_peak=20)


def us(c, s=""):
    return dk.DiffmahUParams(*[c.real(f + s) for f in dk.DiffmahUParams._fields])


@ck.scenario
def in_range(c):
    u = us(c)
    p = c.call(dk.get_bounded_mah_params, u)
    for f in dk.DiffmahParams._fields:
        c.check(f, And(lt(LO[f], getattr(p, f)), lt(getattr(p, f), HI[f])))
    c.check("late_below_early", lt(p.late_index, p.early_index))
    q = c.call(dk.get_unbounded_mah_params, p)
    for f in u._fields:
        c.check("roundtrip_" + f, eq(getattr(q, f), getattr(u, f)), tol=1e-6)


@ck.scenario
def roundtrip_physical(c):
    p = dk.DiffmahParams(*[c.real(f, float(LO[f]), float(HI[f]), lo_open=True, hi_open=True)
                           for f in dk.DiffmahParams._fields])
    c.assume(lt(p.late_index, p.early_index))
    u = c.call(dk.get_unbounded_mah_params, p)
    q = c.call(dk.get_bounded_mah_params, u)
    for f in p._fields:
        c.check(f, eq(getattr(q, f), getattr(p, f)), tol=1e-6)


@ck.scenario
def increasing_own_parameter(c):
    u, v = us(c), us(c, "_b")
    p = c.call(dk.get_bounded_mah_params, u)
    q = c.call(dk.get_bounded_mah_params, v)
    for f in p._fields:
        ua, ub = getattr(u, "u_" + f), getattr(v, "u_" + f)
        pre = lt(ua, ub)
        if f == "early_index":
            pre = And(pre, eq(u.u_late_index, v.u_late_index))
        c.check("up_" + f, Implies(pre, lt(getattr(p, f), getattr(q, f))))


@ck.scenario
def population_arrays(c):
    """arrays of halos are transformed element by element"""
    u, v = us(c), us(c, "_b")
    p = c.call(dk.get_bounded_mah_params, u)
    q = c.call(dk.get_bounded_mah_params, v)
    arr = dk.DiffmahUParams(*[stack(a, b) for a, b in zip(u, v)])
    r = c.call(dk.get_bounded_mah_params, arr)
    for f in p._fields:
        c.check(f, eq(getattr(r, f), stack(getattr(p, f), getattr(q, f))), tol=1e-7)
    w = c.call(dk.get_unbounded_mah_params, r)
    for f in u._fields:
        c.check("inv_" + f, eq(getattr(w, f), stack(getattr(u, f), getattr(v, f))), tol=1e-6)


ck.finish()
