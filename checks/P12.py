from _popmodel import *
from _realize import realize
from diffmah.diffmahpop_kernels import param_utils as pu

ck = Check("P12", "Every Monte Carlo halo is one whole class draw with its own history",
           bounds="every population parameter in its published range; two halos per population with independent "
                  "masses in [10,15], times in [1,15] Gyr and peak times; t0 in [10**0.5, 10**1.29] Gyr; every "
                  "uniform draw in [0,1) and every real normal draw; two output times",
           outside="floating-point rounding; larger populations; mean masses outside (0,17)",
           assumptions=["real arithmetic", "a uniform draw is an arbitrary number in [0,1), a normal draw any real",
                        "the Cholesky factor of the scatter covariance is the same function of the matrix wherever "
                        "it is used"])
SINGLE = {"cens": mcc.mc_diffmah_params_singlecen, "sats": mcs.mc_diffmah_params_singlesat}
POP = {"cens": mcc.mc_diffmah_cenpop, "sats": mcs.mc_diffmah_satpop}
HIST = {"cens": mcc.mc_cenpop, "sats": mcs.mc_satpop}


def tpk(c, s=""):
    return c.real("t_peak" + s, 0.1, 15)


for kind in KINDS:
    def single(c, kind=kind):
        """a halo's two candidate parameter sets: mean + scatter, peak time passed through"""
        p = pop(c)
        lgm, t_obs = obs(c)
        tp = tpk(c)
        lgt0 = c.real("lgt0", 0.5, 1.29)
        e, l, fe = c.call(SINGLE[kind], p, lgm, t_obs, c.key(), lgt0, tp)
        n = len(c.calls) - 1 if c.sym else 0
        zs = {}
        for cls, m in (("early", e), ("late", l)):
            ix = c.draws_in(m, "Z", cls, call=n)
            zs[cls] = [c.draw(i, call=n) for i in ix]
            c.check(f"{cls}:four_scatter_draws", TRUE if len(ix) == 4 else FALSE)
        for cls, m in (("early", e), ("late", l)):
            if len(zs[cls]) != 4:
                continue
            o = realize(c, p, cls, kind, lgm, t_obs, tp, zs[cls])
            for f in m._fields:
                c.check(f"{cls}:{f}", eq(getattr(m, f), getattr(o, f)), tol=1e-4)
            c.check(f"{cls}:peak_time_kept", eq(m.t_peak, tp), tol=1e-5)
            c.check(f"{cls}:domain", And(lt(m.late_index, m.early_index), within(m.logtc, -1, 1),
                                         within(m.logm0, 0, 17)), tol=1e-6)
        c.check("frac_early", eq(fe, o_frac(p, lgm, t_obs)), tol=1e-6)

    def population(c, kind=kind):
        """with given peak times: each halo is entirely its early or entirely its late draw"""
        p = pop(c)
        ab = [obs(c, s) for s in "ab"]
        tp = [tpk(c, s) for s in "ab"]
        lgt0 = c.real("lgt0", 0.5, 1.29)
        h = c.call(POP[kind], p, stack(*[x[0] for x in ab]), stack(*[x[1] for x in ab]), c.key(), lgt0, stack(*tp))
        n = 0
        sel = []
        for i in range(2):
            one_halo = [dk.DiffmahParams(*[v[i] for v in q]) for q in (h.mah_params, h.mah_params_early,
                                                                       h.mah_params_late)]
            m, e, l = one_halo
            c.check(f"fraction{i}", eq(h.frac_early_cens[i], o_frac(p, *ab[i])), tol=1e-6)
            c.check(f"early{i}", Implies(B(h.mc_early[i]), eq(stack(*m), stack(*e))), tol=1e-6)
            c.check(f"late{i}", Implies(Not(B(h.mc_early[i])), eq(stack(*m), stack(*l))), tol=1e-6)
            ix = c.draws_in(h.mc_early[i], "U", f"sel{i}", call=n)
            c.check(f"one_selection_draw{i}", TRUE if len(ix) == 1 else FALSE)
            if len(ix) == 1:
                u = c.draw(ix[0], call=n)
                sel.append(ix[0])
                # the boundary case is immaterial
                c.check(f"selected{i}", And(Implies(lt(u, h.frac_early_cens[i]), B(h.mc_early[i])),
                                            Implies(gt(u, h.frac_early_cens[i]), Not(B(h.mc_early[i])))))
            zs = {}
            for cls, q in (("early", e), ("late", l)):
                jx_ = c.draws_in(q, "Z", f"{cls}{i}", call=n)
                zs[cls] = [c.draw(k, call=n) for k in jx_]
                c.check(f"{cls}{i}:four_scatter_draws", TRUE if len(jx_) == 4 else FALSE)
            for cls, q in (("early", e), ("late", l)):
                if len(zs[cls]) == 4:
                    o = realize(c, p, cls, kind, *ab[i], tp[i], zs[cls])
                    c.check(f"{cls}{i}:own_mass_and_time", eq(stack(*q), stack(*o)), tol=1e-4)
        c.check("independent_selection", TRUE if len(set(sel)) == 2 else FALSE)

    def drawn(c, kind=kind):
        """with peak times drawn inside: both classes share the halo's peak time and selection is whole"""
        p = pop(c)
        ab = [obs(c, s) for s in "ab"]
        lgt0 = c.real("lgt0", 0.5, 1.29)
        h = c.call(POP[kind], p, stack(*[x[0] for x in ab]), stack(*[x[1] for x in ab]), c.key(), lgt0,
                   stub_interp=True)
        for i in range(2):
            m, e, l = [dk.DiffmahParams(*[v[i] for v in q]) for q in (h.mah_params, h.mah_params_early,
                                                                      h.mah_params_late)]
            c.check(f"same_peak_time{i}", And(eq(e.t_peak, l.t_peak), eq(m.t_peak, e.t_peak)), tol=1e-5)
            c.check(f"early{i}", Implies(B(h.mc_early[i]), eq(stack(*m), stack(*e))), tol=1e-6)
            c.check(f"late{i}", Implies(Not(B(h.mc_early[i])), eq(stack(*m), stack(*l))), tol=1e-6)

    def history(c, kind=kind):
        """the returned histories are those of the returned parameters"""
        p = pop(c)
        ab = [obs(c, s) for s in "ab"]
        lgt0 = c.real("lgt0", 0.5, 1.29)
        t = stack(c.time("t1")[0], c.time("t2")[0])
        h = c.call(HIST[kind], p, t, stack(*[x[0] for x in ab]), stack(*[x[1] for x in ab]), c.key(), lgt0,
                   stub_interp=True)
        c.split_ite(h.mah_params.logm0[0])
        c.split_ite(h.mah_params.logm0[1])
        d, m = c.call(dk.mah_halopop, h.mah_params, t, lgt0)
        for i in range(2):
            c.check(f"mass{i}", eq(h.log_mah[i], m[i]), tol=1e-4)
            c.check(f"rate{i}", eq(h.dmhdt[i], d[i]), tol=1e-3)
    ck.scenario(single, "single:" + kind, sides=False)
    ck.scenario(population, "population:" + kind, sides=False)
    ck.scenario(drawn, "drawn:" + kind, sides=False)
    ck.scenario(history, "history:" + kind, sides=False)


@ck.scenario
def selection(c):
    """selecting between two parameter sets takes all five parameters of a halo from the same set"""
    p1 = dk.DiffmahParams(*[c.vec(f + "_1", 2, -20, 20) for f in dk.DiffmahParams._fields])
    p0 = dk.DiffmahParams(*[c.vec(f + "_0", 2, -20, 20) for f in dk.DiffmahParams._fields])
    b = [c.boolean("b0"), c.boolean("b1")]
    ba = np.empty(2, dtype=object)
    ba[0], ba[1] = b
    m = c.call(pu.mc_select_diffmah_params, p1, p0, ba if c.sym else ba.astype(bool))
    for i in range(2):
        for f in dk.DiffmahParams._fields:
            c.check(f"first_{f}_{i}", Implies(B(b[i]), eq(getattr(m, f)[i], getattr(p1, f)[i])))
            c.check(f"second_{f}_{i}", Implies(Not(B(b[i])), eq(getattr(m, f)[i], getattr(p0, f)[i])))


ck.finish()
