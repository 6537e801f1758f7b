from _fit import *

N = 6 if THOROUGH else 5
ck = Check("P17", "What the fitter starts from, when it is skipped, and what it returns",
           bounds=f"histories of {N} snapshots at any increasing times in [0.1,20] Gyr, masses anywhere in [10,1e16] "
                  "rising or falling, no mass threshold, dynamic-range cut wider than the history; any optimizer outcome",
           outside="more snapshots; floating-point rounding (single-precision comparison of the masses to the final one)",
           assumptions=["real arithmetic", "the optimizer (bfgs_adam_fallback) is replaced by an arbitrary function"])
KEEP = dict(dlogm_cut=30.0, t_fit_min=0.0)


def shape(lg):
    """number of fitted points below the final one, and whether a point is the first with the final mass"""
    cm = cummax(lg)
    below = [G("lt", x, cm[-1]) for x in cm]
    first = []
    for k in range(len(lg)):
        first.append(And(eq(lg[k], lg[-1]), *[Not(eq(lg[j], lg[-1])) for j in range(k)]))
    return below, first


def at_least_3(below):
    return Or(*[And(*[below[k] for k in ix]) for ix in itertools.combinations(range(len(below)), 3)])


def tpeak_of(u):
    """physical peak time of an unbounded one, whatever the other parameters"""
    return dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS._replace(u_t_peak=u)).t_peak


def start(fixed):
    def sc(c):
        t, lgt, m, lg = history(c, N)
        kw = dict(KEEP)
        if fixed:
            kw["tpeak_fixed"] = tp = c.real("tp", 0.5, 15)
        u, d, skip = c.py(fh.get_loss_data, t, m, **kw)
        below, first = shape(lg)
        run = at_least_3(below)
        c.check("skipped_iff_fewer_than_3_points", Iff(B(skip), Not(run)))
        if skip:
            return
        c.check("age_today", eq(d.logt0, lgt[-1]), tol=1e-6)
        c.check("four_free_parameters", TRUE if len(u) == 4 else FALSE)
        p = c.call(dk.get_bounded_mah_params, dk.DEFAULT_MAH_U_PARAMS._make([*u, d.u_t_peak]))
        c.check("starts_at_final_mass", eq(p.logm0, lg[-1]), tol=2e-4)
        if fixed:
            c.check("peak_time", eq(p.t_peak, tp), tol=2e-3)
        else:
            for k in range(N):
                c.check(f"peak_time:{k}", Implies(first[k], eq(p.t_peak, t[k])), tol=2e-3)
    return sc


ck.paths(start(False), "start:own_peak")
ck.paths(start(True), "start:fixed_peak")


def result(force):
    def sc(c):
        t, lgt, m, lg = history(c, N)
        ub = [c.real(f"u{k}", -20, 20) for k in range(4)]
        loss, ok = c.real("loss", -5, 1000), c.boolean("ok")
        code = 1
        calls = []

        def opt(kern, u, data, nstep=200, n_warmup=1):
            calls.append((kern, u, data, nstep, n_warmup))
            return [SNlift(c, ub), SNlift(c, loss), SNlift(c, ok), code]
        r = c.py(fh.diffmah_fitter, t, m, nstep=7, n_warmup=3, force_skip_fit=force, replace=[(fh.bfgs_adam_fallback, opt)],
                 **KEEP)
        below, first = shape(lg)
        run = at_least_3(below)
        skip = not calls
        c.check("reported_skip", B(r.skip_fit) if skip else Not(B(r.skip_fit)))
        if force:
            c.check("never_run", TRUE if skip else FALSE)
        else:
            c.check("skipped_iff_fewer_than_3_points", Not(run) if skip else run)
        if skip:
            c.check("nofit_values", And(*[eq(x, -99.0) for x in r.p_best], eq(r.loss_best, -99.0)))
            c.check("nofit_flags", And(Not(B(bool(r.fit_terminates))), eq(r.code_used, -1)))
            return
        (kern, u, data, nstep, n_warmup), = calls
        c.check("once_with_the_caller's_options", TRUE if (nstep, n_warmup) == (7, 3) else FALSE)
        p = c.call(dk.get_bounded_mah_params, dk.DEFAULT_MAH_U_PARAMS._make([*ub, data_(c, data).u_t_peak]))
        for n, a, b in zip(p._fields, r.p_best, p):
            c.check(f"best:{n}", eq(a, b), tol=1e-4)
        c.check("passed_through", And(eq(r.loss_best, loss), Iff(B(r.fit_terminates), B(ok)), eq(r.code_used, code)), tol=1e-6)
        c.check("same_data", And(same(r.loss_data.log_mah_target, list(arr_(data_(c, data).log_mah_target))),
                                 same(r.loss_data.t_target, list(arr_(data_(c, data).t_target)))), tol=1e-6)
    return sc


def SNlift(c, x):
    return H.SN.lift(stack(*x) if isinstance(x, list) else x) if c.sym else (np.array(x) if isinstance(x, list) else x)


def data_(c, d):
    return H.SN.lower(d) if c.sym else d


ck.paths(result(False), "result")
ck.paths(result(True), "result:forced_skip")
ck.finish()
