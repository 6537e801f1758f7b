from _fit import *

N = 4 if THOROUGH else 3
ck = Check("P16", "Fit data are exactly the snapshots passing the cuts, as cumulative peak mass",
           bounds=f"histories of {N} snapshots at any increasing times in [0.1,20] Gyr, masses anywhere in [10,1e16] or "
                  "exactly zero, any mass threshold, dynamic-range cut and minimum time",
           outside="more snapshots; floating-point rounding; a dynamic-range cut over 7 dex; masses below 10",
           assumptions=["real arithmetic"])


def kept(c, t, lg, cut, lgmin, tmin, zeros=()):
    n = len(lg)
    return [FALSE if k in zeros else And(G("lt", lg[n - 1] - cut, lg[k]), G("lt", lgmin, lg[k]) if lgmin is not None
                                         else TRUE, G("le", tmin, t[k])) for k in range(n)]


@ck.paths
def target(c):
    """selection and cumulative maximum on a table of log masses, which may decrease"""
    t, lgt, m, lg = history(c, N)
    cut, lgmin, tmin = c.real("cut", 0, 7), c.real("lgm_min", 0, 15), c.real("tmin", 0, 10)
    lt_, lm = c.py(fh._get_target_data, t, stack(*lg), lgmin, cut, tmin)
    for p, ix in patterns(kept(c, t, lg, cut, lgmin, tmin)):
        tag = "".join(map(str, ix)) or "none"
        c.check(f"{tag}:times", Implies(p, same(lt_, [lgt[k] for k in ix])), tol=1e-6)
        c.check(f"{tag}:masses", Implies(p, same(lm, cummax([lg[k] for k in ix]))), tol=1e-6)
    a = arr_(lm)
    c.check("never_decreasing", And(*[le(a[k], a[k + 1]) for k in range(len(a) - 1)]))


@ck.paths
def boundary(c):
    """a snapshot exactly at the minimum time is used"""
    t, lgt, m, lg = history(c, N)
    lt_, lm = c.py(fh._get_target_data, t, stack(*lg), 0.0, 20.0, t[1])
    c.check("times", same(lt_, lgt[1:]), tol=1e-6)
    c.check("masses", same(lm, cummax(lg[1:])), tol=1e-6)


def loss_data(zeros, finite_min):
    def sc(c):
        """the data handed to the fitter, from the masses themselves"""
        t, lgt, m, lg = history(c, N, zeros)
        cut, tmin = c.real("cut", 0, 7), c.real("tmin", 0, 10)
        lgmin = c.real("lgm_min", 0, 15) if finite_min else None
        kw = dict(dlogm_cut=cut, t_fit_min=tmin)
        if finite_min:
            kw["lgm_min"] = lgmin
        u, d, skip = c.py(fh.get_loss_data, t, m, **kw)
        for p, ix in patterns(kept(c, t, lg, cut, lgmin, tmin, zeros)):
            tag = "".join(map(str, ix)) or "none"
            if any(k in zeros for k in ix):
                continue
            c.check(f"{tag}:times", Implies(p, same(d.t_target, [t[k] for k in ix])), tol=1e-4)
            c.check(f"{tag}:masses", Implies(p, same(d.log_mah_target, cummax([lg[k] for k in ix]))), tol=1e-6)
    return sc


ck.paths(loss_data((), True), "data:threshold")
ck.paths(loss_data((), False), "data:no_threshold")
ck.paths(loss_data((0,), True), "data:zero_start:threshold")
ck.paths(loss_data((0,), False), "data:zero_start:no_threshold")
if THOROUGH:
    ck.paths(loss_data((0, 1), True), "data:zeros:threshold")
    ck.paths(loss_data((0, 1), False), "data:zeros:no_threshold")
    ck.paths(loss_data((1,), False), "data:zero_middle:no_threshold")
ck.finish()
