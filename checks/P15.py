from _popmodel import *
from collections import namedtuple
from diffmah.diffmahpop_kernels import bimod_cens_fithelp as bc, bimod_sats_fithelp as bs, bimod_censat_fithelp as bcs

NB = 4 if THOROUGH else 2
NT = 3 if THOROUGH else 2
ck = Check("P15", "Population-fit loss is the mean squared error of mean and scatter over bins",
           bounds=f"{NB} bins of {NT} times; every target, every bin mass, time and t0, every population parameter; the "
                  "predicted moments are an arbitrary function of the bin's inputs and key",
           outside="more bins or times; floating-point rounding; the gradients (automatic differentiation is trusted)",
           assumptions=["real arithmetic", "the moments predictor is a function of its arguments"])
RANK = [0] * len(FIELDS) + [1, 0, 0, 0, 0]
OP = {"predict_mah_moments_singlebin": (RANK, [1, 1, 1])}
LOSS = {"cens": bc.loss_mah_moments_multibin, "sats": bs.loss_mah_moments_multibin}


def data(c, s):
    d = dict(t=c.vec("t" + s, (NB, NT), 0.1, 15), lgm=c.vec("lgm" + s, NB, 10, 15), tobs=c.vec("tobs" + s, NB, 1, 15))
    for k in ("mean", "std"):
        d[k] = c.vec(k + s, (NB, NT), -20, 20)
    d["fp"] = c.vec("fp" + s, (NB, NT), 0, 1)
    return d


def get_uses(c):
    u = c.opq["predict_mah_moments_singlebin"]
    if not u:
        raise H.Inconclusive("the moments predictor is not called by its name")
    return u


def uses_ok(c, tag, uses, p, d, lgt0):
    c.check(f"{tag}one_prediction_per_bin", TRUE if len(uses) == NB else FALSE)
    for b in range(min(NB, len(uses))):
        a = uses[b][0]
        i = len(FIELDS)
        c.check(f"{tag}bin{b}:model", eq(stack(*[_s(v) for v in a[:i]]), stack(*p)), tol=1e-5)
        c.check(f"{tag}bin{b}:inputs", And(eq(a[i], d["t"][b]), eq(a[i + 1], d["lgm"][b]), eq(a[i + 2], d["tobs"][b]),
                                           eq(a[i + 4], lgt0)), tol=1e-5)
        c.check(f"{tag}bin{b}:own_key", TRUE if all(_key(uses[k][0][i + 3]) != _key(a[i + 3]) for k in range(len(uses))
                                                    if k != b) else FALSE)


def _s(v):
    return v[()] if isinstance(v, np.ndarray) else v


def same_inputs(c, x, y):
    x, y = _s(x), _s(y)
    return x == y if c.sym else abs(float(x) - float(y)) < 1e-5


def _key(k):
    if H.jx._iskeyarr(k):
        return tuple(np.asarray(jax.random.key_data(k)).ravel())
    return k[()] if isinstance(k, np.ndarray) else k


def oracle(uses, d):
    tot = 0
    for b in range(len(uses)):
        m, s = uses[b][1][:2]
        for k in range(NT):
            tot = tot + (m[k] - d["mean"][b, k]) * (m[k] - d["mean"][b, k]) \
                + (s[k] - d["std"][b, k]) * (s[k] - d["std"][b, k])
    return tot * H.fr(f"1/{NB * NT}")


def args1(p, d, key, lgt0):
    return p, d["t"], d["lgm"], d["tobs"], key, lgt0, d["mean"], d["std"], d["fp"]


def args2(p, a, b, key, lgt0):
    return (p, a["t"], a["lgm"], a["tobs"], b["t"], b["lgm"], b["tobs"], key, lgt0,
            a["mean"], a["std"], a["fp"], b["mean"], b["std"], b["fp"])


for kind in KINDS:
    def multibin(c, kind=kind):
        """mean over bins and times of the squared errors of mean and of scatter; zero exactly on perfect agreement"""
        p = pop(c)
        d = data(c, "")
        lgt0 = c.real("lgt0", 0.5, 1.29)
        loss = c.call(LOSS[kind], *args1(p, d, c.key(), lgt0), opaque=OP)
        uses = get_uses(c)
        uses_ok(c, "", uses, p, d, lgt0)
        c.check("value", eq(loss, oracle(uses, d)), tol=1e-5)
        c.check("nonnegative", le(0, loss), tol=1e-6)
        same = And(*[eq(uses[b][1][j], d[k][b]) for b in range(len(uses)) for j, k in ((0, "mean"), (1, "std"))])
        c.check("zero_on_agreement", Implies(same, eq(loss, 0)), tol=1e-6)
    ck.scenario(multibin, "multibin:" + kind, sides=False)


@ck.scenario
def both(c):
    """the joint loss is the central loss plus the satellite loss, each on its own data"""
    p = pop(c)
    a, b = data(c, "_cen"), data(c, "_sat")
    lgt0 = c.real("lgt0", 0.5, 1.29)
    loss = c.call(bcs.loss_mah_moments_multibin_censat, *args2(p, a, b, c.key(), lgt0), opaque=OP)
    uses = get_uses(c)
    c.check("one_prediction_per_bin_and_class", TRUE if len(uses) == 2 * NB else FALSE)
    # the order in which the two classes are evaluated is immaterial
    i = len(FIELDS)
    first = all(same_inputs(c, uses[k][0][i + 1], a["lgm"][k]) for k in range(NB))
    uc, us = (uses[:NB], uses[NB:]) if first else (uses[NB:], uses[:NB])
    uses_ok(c, "cens:", uc, p, a, lgt0)
    uses_ok(c, "sats:", us, p, b, lgt0)
    c.check("keys_differ", TRUE if len({_key(u[0][i + 3]) for u in uses}) == len(uses) else FALSE)
    c.check("value", eq(loss, oracle(uc, a) + oracle(us, b)), tol=1e-5)
    c.check("nonnegative", le(0, loss), tol=1e-6)


def unbounded(name, f, get, kinds):
    def sc(c):
        """the loss of unbounded parameters is the loss of the bounded parameters they stand for; parameters that are
        left out take the default value"""
        keep = [k for k in FIELDS if c_keep(k)]
        UP = namedtuple("UP", ["u_" + k for k in keep])
        u = UP(*[c.real("u_" + k, -30, 30) for k in keep])
        full = dpp.DEFAULT_DIFFMAHPOP_U_PARAMS._replace(**u._asdict())
        lgt0 = c.real("lgt0", 0.5, 1.29)
        ds = [data(c, "_" + k) for k in kinds]
        ld = args1(None, ds[0], c.key(), lgt0)[1:] if len(ds) == 1 else args2(None, *ds, c.key(), lgt0)[1:]
        loss = c.call(f, u, ld, opaque=OP)
        uses = get_uses(c)
        p = c.call(get, full)
        c.check("one_prediction_per_bin_and_class", TRUE if len(uses) == len(ds) * NB else FALSE)
        for n, us in enumerate(uses):
            c.check(f"use{n}:model", eq(stack(*[_s(v) for v in us[0][:len(FIELDS)]]), stack(*p)), tol=1e-4)
        tot = 0
        for k, d in enumerate(ds):
            tot = tot + oracle(uses[k * NB:(k + 1) * NB], d)
        if len(ds) > 1 and len(uses) == 2 * NB:
            i = len(FIELDS)
            if not all(same_inputs(c, uses[k][0][i + 1], ds[0]["lgm"][k]) for k in range(NB)):
                tot = oracle(uses[NB:], ds[0]) + oracle(uses[:NB], ds[1])
        c.check("value", eq(loss, tot), tol=1e-5)
    ck.scenario(sc, name, sides=False)


for tag, c_keep in (("all", lambda k: True), ("some", lambda k: k.startswith(("early_index", "fec_")))):
    unbounded(f"unbounded:cens:{tag}", bc.loss_mah_moments_multibin_u_params, dpp.get_diffmahpop_params_from_u_params,
              ["cen"])
    unbounded(f"unbounded:both:{tag}", bcs.loss_mah_moments_multibin_censat_u_params,
              dpp.get_diffmahpop_params_from_u_params, ["cen", "sat"])


@ck.scenario
def partial_parameters(c):
    """the joint loss of a subset of the parameters is that of the subset completed with the defaults"""
    keep = [k for k in FIELDS if k.startswith(("early_index", "fec_"))]
    b = bounds()
    v = namedtuple("V", keep)(*[c.real(k, *b[k]) for k in keep])
    a, s = data(c, "_cen"), data(c, "_sat")
    lgt0 = c.real("lgt0", 0.5, 1.29)
    c.call(bcs.loss_mah_moments_multibin_censat, *args2(v, a, s, c.key(), lgt0), opaque=OP)
    full = dpp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**v._asdict())
    for n, us in enumerate(get_uses(c)):
        c.check(f"use{n}:model", eq(stack(*[_s(x) for x in us[0][:len(FIELDS)]]), stack(*full)), tol=1e-5)


ck.finish()
