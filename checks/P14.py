from _popmodel import *
from functools import partial
from _realize import realize

NH = 200
NT = 1
ck = Check("P14", "Predicted mean and scatter of a mass bin are exact moments of its halos",
           bounds="200 halos with arbitrary early and late histories and early fractions in [0,1], falling into groups "
                  "with a common history: eight groups for the mean, up to three for the scatter, over several "
                  "groupings; samples of two halos for how a sample is generated",
           outside="floating-point rounding; samples of more different halos",
           assumptions=["real arithmetic", "the halo sampler is a function of its arguments"])
MOM = {"cens": mcc.predict_mah_moments_singlebin, "sats": mcs.predict_mah_moments_singlebin}
SAMPLE = {"cens": mcc._mc_diffmah_halo_sample, "sats": mcs._mc_diffmah_halo_sample}
RANK = [0] * len(FIELDS) + [1, 0, 0, 0, 0]
SRANK = [1] * 5 + [2, 2] + [1] * 5 + [2, 2] + [1]
SRNG = [None] * 5 + [None, (-20, 20)] + [None] * 5 + [None, (-20, 20)] + [(0, 1)]
SRNG = [r or (None, None) for r in SRNG]


def setup(c):
    p = pop(c)
    lgm, t_obs = obs(c)
    return p, c.vec("t", NT, 0.1, 15), lgm, t_obs, c.key(), c.real("lgt0", 0.5, 1.29)


def sample(c, kind, a, share):
    out = c.call(MOM[kind], *a, opaque={"_mc_diffmah_halo_sample": (RANK, SRANK, SRNG, share)})
    uses = c.opq["_mc_diffmah_halo_sample"]
    if not uses:
        raise H.Inconclusive("the halo sampler is not called by its name")
    c.check("one_sample", TRUE if len(uses) == 1 else FALSE)
    if len(uses) != 1:
        return out, None, None, None
    x, r = uses[0]
    i = len(FIELDS)
    c.check("sample_model", eq(stack(*[_s(v) for v in x[:i]]), stack(*a[0])), tol=1e-5)
    c.check("sample_inputs", And(eq(x[i], a[1]), eq(_s(x[i + 1]), a[2]), eq(_s(x[i + 2]), a[3]), eq(_s(x[i + 4]), a[5])),
            tol=1e-5)
    return out, r[6], r[13], r[14]


def _s(v):
    return v[()] if isinstance(v, np.ndarray) else v


def wsum(terms):
    if any(isinstance(t, Poly) for t in terms):
        return X.psum(terms)
    return sum(terms)


for kind in KINDS:
    def mean(c, g, kind=kind):
        """every halo contributes its early history with its early fraction and its late one with the rest"""
        share = lambda j, i: (g[i[0]],) + i[1:] if SRANK[j] and len(g) == NH else i  # noqa
        a = setup(c)
        (m, s, f), e, l, w = sample(c, kind, a, share)
        if e is None:
            return
        n = len(w)
        for k in range(NT):
            o = wsum([w[i] * e[i, k] + (1 - w[i]) * l[i, k] for i in range(n)]) * H.fr(f"1/{n}")
            c.check(f"mean{k}", eq(m[k], o), tol=1e-4)
            c.check(f"fraction{k}", within(f[k], 0, 1))

    def bracket(c, g, kind=kind):
        """mean inside the range of the histories; scatter = root of the weighted mean square deviation"""
        share = lambda j, i: (g[i[0]],) + i[1:] if SRANK[j] and len(g) == NH else i  # noqa
        a = setup(c)
        (m, s, f), e, l, w = sample(c, kind, a, share)
        if e is None:
            return
        n = len(w)
        if c.sym:
            reps = sorted(set(g))
            cnt = {q: g.count(q) for q in reps}
            ix = {q: g.index(q) for q in reps}
        else:
            reps, cnt, ix = range(n), {q: 1 for q in range(n)}, {q: q for q in range(n)}
        for k in range(NT):
            vals = [x for q in reps for x in (e[ix[q], k], l[ix[q], k])]
            c.check(f"above_least{k}", Or(*[le(v, m[k]) for v in vals]), tol=1e-4)
            c.check(f"below_greatest{k}", Or(*[le(m[k], v) for v in vals]), tol=1e-4)
            mu = m[k]
            var = wsum([(w[ix[q]] * (e[ix[q], k] - mu) * (e[ix[q], k] - mu)
                         + (1 - w[ix[q]]) * (l[ix[q], k] - mu) * (l[ix[q], k] - mu)) * H.fr(f"{cnt[q]}/{n}")
                        for q in reps])
            c.check(f"scatter{k}", eq(s[k], sqrt(var)), tol=1e-3)
            c.check(f"scatter_nonnegative{k}", le(0, s[k]))
    for n, g in enumerate([[k % 8 for k in range(NH)], [k // 25 for k in range(NH)]]):
        ck.scenario(lambda c, g=g, b=mean: b(c, g), f"mean{n}:{kind}", sides=False, validate=False)
    gs = [[0] * NH, [0] + [1] * (NH - 1), [0] * 100 + [1] * 100, [0] * (NH - 1) + [1]]
    if THOROUGH:
        gs += [[1] * k + [0] + [1] * (NH - 1 - k) for k in range(1, NH - 1, 7)]
        gs += [[0] * 50 + [1] * 70 + [2] * 80, [0] + [1] + [2] * 198, [k % 3 for k in range(NH)]]
    for n, g in enumerate(gs):
        ck.scenario(lambda c, g=g, b=bracket: b(c, g), f"moments{n}:{kind}", sides=False, validate=False)

    def drawn(c, kind=kind):
        """each sampled halo: own class draws at the bin's mass and time, and the histories of those draws"""
        p = pop(c)
        lgm, t_obs = obs(c)
        lgt0 = c.real("lgt0", 0.5, 1.29)
        t = c.vec("t", 2, 0.1, 15)
        r = c.call(partial(SAMPLE[kind], n_mc=2), p, t, lgm, t_obs, c.key(), lgt0, stub_interp=True)
        n = 0
        used = []
        for i in range(2):
            for cls, q in (("early", r[:3]), ("late", r[3:6])):
                h = dk.DiffmahParams(*[v[i] for v in q[0]])
                d, m = c.call(dk.mah_singlehalo, h, t, lgt0)
                c.check(f"{cls}{i}:mass", eq(q[2][i], m), tol=1e-4)
                c.check(f"{cls}{i}:rate", eq(q[1][i], d), tol=1e-3)
                ix = c.draws_in(h, "Z", f"{cls}{i}", call=n)
                used += ix
                c.check(f"{cls}{i}:four_scatter_draws", TRUE if len(ix) == 4 else FALSE)
                if len(ix) == 4:
                    o = realize(c, p, cls, kind, lgm, t_obs, h.t_peak, [c.draw(k, call=n) for k in ix])
                    c.check(f"{cls}{i}:class_draw", eq(stack(*h), stack(*o)), tol=1e-4)
            c.check(f"fraction{i}", eq(r[6][i], o_frac(p, lgm, t_obs)), tol=1e-6)
        c.check("sixteen_draws", TRUE if len(set(used)) == 16 else FALSE)
    ck.scenario(drawn, "drawn:" + kind, sides=False)
ck.finish()
