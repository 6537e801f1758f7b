from _halo import *

ck = Check("P04", "Population, per-object and unbounded-parameter entry points agree",
           bounds="two halos with independent parameters (" + HALO_BOUNDS + "), two times; unbounded parameters: "
                  "every real in [-200,200]",
           outside="floating-point rounding; more than two halos/times per call",
           assumptions=["real arithmetic; exp/log by their mathematical definition"])


@ck.scenario
def pop_is_rowwise(c):
    p, _ = halo(c, "_a")
    q, _ = halo(c, "_b")
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    t = stack(t1, t2)
    pop = dk.DiffmahParams(*[stack(a, b) for a, b in zip(p, q)])
    d, m = c.call(dk.mah_halopop, pop, t, lt0)
    for k, h in enumerate((p, q)):
        d1, m1 = c.call(dk.mah_singlehalo, h, t, lt0)
        c.check(f"mass_row{k}", eq(m[k], m1), tol=1e-7)
        c.check(f"rate_row{k}", eq(d[k], d1), tol=1e-7)


@ck.scenario
def t_obs_matches_single(c):
    p, _ = halo(c, "_a")
    q, _ = halo(c, "_b")
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    pop = dk.DiffmahParams(*[stack(a, b) for a, b in zip(p, q)])
    m = c.call(dk.logmh_at_t_obs, pop, stack(t1, t2), lt0)
    ms = c.call(dk.logmh_at_t_obs, p, t1, lt0)
    _, ma = c.call(dk.mah_singlehalo, p, stack(t1), lt0)
    _, mb = c.call(dk.mah_singlehalo, q, stack(t2), lt0)
    c.check("array_first", eq(m[0], ma[0]), tol=1e-7)
    c.check("array_second", eq(m[1], mb[0]), tol=1e-7)
    c.check("scalar", eq(ms, ma[0]), tol=1e-7)
    mt = c.call(dk.logmh_at_t_obs, pop, t1, lt0)
    _, mc = c.call(dk.mah_singlehalo, q, stack(t1), lt0)
    c.check("scalar_time", eq(mt, stack(ma[0], mc[0])), tol=1e-7)


@ck.scenario
def unbounded(c):
    u = c.nt(dk.DiffmahUParams, {f: (-200.0, 200.0) for f in dk.DiffmahUParams._fields})
    lt0 = lgt0(c)
    t1, x1 = c.time("t1")
    t2, x2 = c.time("t2")
    t = stack(t1, t2)
    p = c.call(dk.get_bounded_mah_params, u)
    d, m = c.call(dk.mah_singlehalo, p, t, lt0)
    d1, m1 = c.call(dk._diffmah_kern_u_params, u, t, lt0)
    m2 = c.call(dk._log_mah_kern_u_params, u, t, lt0)
    d2 = c.call(dk._dmhdt_kern_u_params, u, t, lt0)
    c.check("mass", And(eq(m1, m), eq(m2, m)), tol=1e-7)
    c.check("rate", And(eq(d1, d), eq(d2, d)), tol=1e-7)


ck.finish()
