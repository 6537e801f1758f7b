from _popmodel import *
from _fit import fh, same
from _comps import P as PK
from types import SimpleNamespace
import importlib
import jax
import jax.numpy as jnp
from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tpc0, utp_pdf_kernels as utpk, tp_pdf_cens_flex as flex
from diffmah.fitting_helpers import bfgs_wrapper as bw

ND = 3 if THOROUGH else 2
ck = Check("P29", "Every fit's objective is the mean squared error of the model it fits",
           bounds=f"{ND} data points per data set, 2 data sets; any unbounded parameter in [-30,30] (any bounded one in its "
                  "published range); masses in [8,16] dex, times in [0.5,20] Gyr; any target; any optimizer outcome",
           outside="more data points; floating-point rounding",
           assumptions=["real arithmetic", "the optimizer (bfgs_adam_fallback) is replaced by an arbitrary function"])


def jsig(x, x0, k, lo, hi):
    return lo + (hi - lo) * jax.nn.sigmoid(k * (x - x0))


def jss(x, xtp, ytp, x0, k, lo, hi):
    return ytp + jsig(x, x0, k, lo, hi) * (x - xtp)


def mse(pred, target):
    return jnp.mean((pred - target) ** 2)


def halo_model(u, d):
    p = dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS._make([*u, d[2]]))
    return mse(dk.mah_singlehalo(p, d[0], d[3])[1], d[1])


@ck.scenario
def one_halo(c):
    """objective minimised for a single simulated history"""
    u = fh.VariedDiffmahUParams(*[c.real(f, -30, 30) for f in fh.VariedDiffmahUParams._fields])
    t = stack(*[c.time(f"t{k}", -0.3, 1.3)[0] for k in range(ND)])
    d = (t, c.vec("m", ND, 1, 16), c.real("u_tp", -30, 30), c.real("lgt0", 0.5, 1.3))
    v, g = c.call(fh.loss_and_grads_kern, u, d)
    w, h = c.call(jax.value_and_grad(halo_model), u, d)
    c.check("value", eq(v, w), tol=1e-3)
    for f, a, b in zip(u._fields, g, h):
        c.check(f"gradient:{f}", eq(a, b), tol=1e-3)
    c.check("not_negative", ge(v, 0), tol=1e-6)


def component(name, model):
    k = Comp(name)

    def sc(c):
        u = stack(*[c.real("u_" + f, -30, 30) for f in k.fields])
        d = tuple(c.vec(n, ND, lo, hi) for n, lo, hi in (("lgm", 8, 16), ("t_obs", 0.5, 20), ("t_peak", 0.5, 20),
                                                          ("target", -10, 10)))
        v, g = c.call(k.m.loss_and_grads_kern, u, d)
        w, h = c.call(jax.value_and_grad(lambda u, d: mse(model(k)(k.gb(k.UT(*u)), *d[:3]), d[3])), u, d)
        c.check("value", eq(v, w), tol=1e-3)
        for i, f in enumerate(k.fields):
            c.check(f"gradient:{f}", eq(arr_(g)[i], arr_(h)[i]), tol=1e-3)
    ck.scenario(sc, "component:" + name)


arr_ = H._arr
component("early_index_alpha", lambda k: k.m._pred_early_index_kern)
component("early_index_beta", lambda k: k.m._pred_early_index_kern)
component("early_index_pop", lambda k: k.m._pred_early_index_kern)
component("logtc_early", lambda k: k.m._pred_logtc_kern)
component("logtc_late", lambda k: k.m._pred_logtc_kern)


def lf(c, x):
    return H.SN.lift(stack(*x) if isinstance(x, list) else x) if c.sym else (np.array(x) if isinstance(x, list) else x)


def lw(c, x):
    return H.SN.lower(x) if c.sym else x


def logm0(pkg, cx, cls):
    """global fit of a normalisation: the objective handed to the optimizer, and what is returned"""
    name = f"{pkg}.logm0_{cx}_{cls}"
    k = Comp(name)
    fit, model = getattr(k.m, f"fit_global_{cx}_model"), getattr(k.m, f"_pred_{cx}_kern")

    def sc(c):
        v = [c.real(f, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)]
        data = [tuple(c.vec(f"{n}{j}_", ND, lo, hi) for n, lo, hi in (("t_obs", 0.5, 20), ("t_peak", 0.5, 20),
                                                                      ("target", -10, 10))) for j in range(2)]
        ans, loss, ok = [c.real(f"a{i}", -9, 9) for i in range(len(v))], c.real("loss", 0, 9), c.boolean("ok")
        seen = {}

        def opt(kern, p0, d, *a, **kw):
            seen["kern"], seen["p0"], seen["d"] = kern, p0, d
            return lf(c, ans), lf(c, loss), lf(c, ok), 1
        r = c.py(fit, data, replace=[(bw.bfgs_adam_fallback, opt)])
        c.check("starts_from_defaults", eq(stack(*[lw(c, x) for x in seen["p0"]]), stack(*[float(x) for x in k.defaults])),
                tol=1e-6)
        c.check("answer_passed_through", And(same(r[0], ans), eq(r[1], loss), Iff(B(r[2]), B(ok)), eq(r[3], 1)))
        d = lw(c, seen["d"])
        # optimizers call the objective with a plain array
        val, g = c.call(seen["kern"], stack(*v), d)
        w, h = c.call(jax.value_and_grad(lambda u, d: sum(mse(model(k.PT(*u), *e[:2]), e[2]) for e in d)), stack(*v), data)
        c.check("value", eq(val, w), tol=1e-3)
        for i, f in enumerate(k.fields):
            c.check(f"gradient:{f}", eq(arr_(g)[i], arr_(h)[i]), tol=1e-3)
    ck.paths(sc, "global:" + name)


for pkg in ("bimod_logm0_kernels", "bimod_logm0_sats"):
    for cls in ("early", "late"):
        logm0(pkg, "c0", cls)
        logm0(pkg, "c1", cls)


def utp(c):
    return stack(c.real("u_loc", -10, 10), c.real("u_scale", -10, 10))


def flexible(c):
    """fraction of centrals past their peak, several masses at once"""
    k = Comp("t_peak_kernels.tp_pdf_cens_flex")
    v = k.PT(*[c.real(f, float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)])
    d = (np.array([c.vec(f"utp{j}_", ND, 0, 1) for j in range(2)]), np.array([c.vec(f"y{j}_", ND, 0, 1) for j in range(2)]),
         c.vec("lgm", 2, 8, 16), c.vec("t_obs", 2, 0.5, 20))

    def own(p, d):
        f = lambda lo, hi, m: jsig(m, p.cen_tp_lgm_x0_x0, 1.0, lo, hi)  # noqa
        x0 = jsig(d[3], p.cen_tp_t_obs_x0_x0, 2.0, f(p.cen_tp_x0_ylo_early, p.cen_tp_x0_yhi_early, d[2]),
                  f(p.cen_tp_x0_ylo_late, p.cen_tp_x0_yhi_late, d[2]))
        return jnp.mean(jnp.abs(jsig(d[0], x0[:, None], 5.0, 0.0, 1.0) - d[1]))
    c.check("mean_absolute_error", eq(c.call(flex.loss_multimass, v, d), c.call(own, v, d)), tol=1e-4)
    x0 = c.real("x0", 0.3, 2)
    val, (g,) = c.call(flex.loss_and_grad, (x0,), (d[0][0], d[1][0]))
    w, h = c.call(jax.value_and_grad(lambda x, d: mse(jsig(d[0], x, 5.0, 0.0, 1.0), d[1])), x0, (d[0][0], d[1][0]))
    c.check("single_mass_value", eq(val, w), tol=1e-4)
    c.check("single_mass_gradient", eq(g, h), tol=1e-3)


ck.scenario(flexible)


def peak_fit(which):
    """fit of a peak-time density: objective, and the physical parameters returned"""
    fit = {"unit": utpk.t_peak_fitter, "physical": tpc0.t_peak_cens_fitter}[which]

    def sc(c):
        x = [c.real(f"x{i}", 0.11, 0.99) for i in range(ND)]
        y = [c.real(f"y{i}", 0, 5) for i in range(ND)]
        t0 = c.real("t0", 5, 20)
        ans, loss, ok = [c.real(f"a{i}", -30, 30) for i in range(2)], c.real("loss", 0, 9), c.boolean("ok")
        seen = {}

        def opt(kern, p0, d, *a, **kw):
            seen["kern"], seen["p0"], seen["d"] = kern, p0, d
            return lf(c, ans), lf(c, loss), lf(c, ok), 1
        args = (stack(*x), stack(*y)) if which == "unit" else (stack(*[v * t0 for v in x]), stack(*y), t0)
        r = c.py(fit, *args, replace=[(bw.bfgs_adam_fallback, opt)])
        p = c.call(utpk.get_bounded_utp_params, utpk.UTP_UParams(*ans))
        c.check("answer_bounded", And(eq(r[0].utp_loc, p.utp_loc), eq(r[0].utp_scale, p.utp_scale)), tol=1e-5)
        c.check("rest_passed_through", And(eq(r[1], loss), Iff(B(r[2]), B(ok)), eq(r[3], 1)))
        d = lw(c, seen["d"])
        u = utp(c)
        q = c.call(utpk.get_bounded_utp_params, utpk.UTP_UParams(*u))
        val = c.call(lambda u, d: seen["kern"](u, d)[0], u, d, dce=True)
        if which == "unit":
            pred = [c.call(utpk._tp_pdf_kern, v, (q.utp_loc, q.utp_scale)) for v in x]
        else:
            pred = [c.call(utpk._tp_pdf_kern, v, (q.utp_loc, q.utp_scale)) / t0 for v in x]
        e = [a - b for a, b in zip(pred, y)]
        c.check("value", eq(val, sum(v * v for v in e) * fr("1") / ND), tol=1e-3)
    ck.paths(sc, "peak_time:" + which)


peak_fit("unit")
peak_fit("physical")
ck.finish()
