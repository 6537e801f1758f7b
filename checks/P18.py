from _fit import *
import scipy.optimize as so
from types import SimpleNamespace
from diffmah.fitting_helpers import bfgs_wrapper as bw
from diffmah.fitting_helpers import fit_utils as fu

ND = 5 if THOROUGH else 4
ck = Check("P18", "The primary optimizer's answer is used when valid, otherwise the fallback's",
           bounds=f"any start, gradient and answer in {ND} dimensions, any finite loss of either sign, nan, +inf or -inf, "
                  "success or failure, any answer of the fallback",
           outside="the optimizers themselves (scipy's L-BFGS-B and the Adam wrapper are replaced by arbitrary functions)",
           assumptions=["real arithmetic"])
BAD = dict(nan=math.nan, inf=math.inf, ninf=-math.inf)


def lf(c, x):
    return H.SN.lift(stack(*x) if isinstance(x, list) else x) if c.sym else (np.array(x) if isinstance(x, list) else x)


def lw(c, x):
    return H.SN.lower(x) if c.sym else x


def fallback(kind, success=None):
    def sc(c):
        v = {k: [c.real(f"{k}{i}", -50, 50) for i in range(ND)] for k in ("start", "probe", "grad", "ans", "aans")}
        val, aloss = c.real("val", -10, 1000), c.real("aloss", -10, 1000)
        fun = BAD.get(kind)
        loss = c.real("loss", -10, 1000) if fun is None else fun
        ok = c.boolean("ok") if success is None else success
        aok = c.boolean("aok")
        data = ("loss", "data")
        seen = {}

        def vg(p, d):
            seen.setdefault("vg", []).append((p, d))
            return lf(c, val), lf(c, v["grad"])

        def fake_min(f, x0, args=(), method=None, jac=None, **kw):
            args = args if isinstance(args, tuple) else (args,)
            seen["x0"], seen["method"] = x0, method
            pr = lf(c, v["probe"])
            if callable(jac):
                seen["f"], seen["g"] = f(pr, *args), jac(pr, *args)
            elif jac is True:
                seen["f"], seen["g"] = f(pr, *args)
            return SimpleNamespace(x=lf(c, v["ans"]), fun=lf(c, loss), success=lf(c, ok))

        def fake_adam(*a, **k):
            seen.setdefault("adam", []).append((a, k))
            return lf(c, v["aans"]), lf(c, aloss), "loss_arr", "params_arr", lf(c, aok)
        r = c.py(bw.bfgs_adam_fallback, vg, stack(*v["start"]), data, 11, 3,
                 replace=[(so.minimize, fake_min), (fu.jax_adam_wrapper, fake_adam)], attrs=[(so, "minimize", fake_min)])
        c.check("objective_is_the_loss", eq(lw(c, seen["f"]), val), tol=1e-6)
        c.check("gradient_is_the_gradient", same(lw(c, seen["g"]), v["grad"]), tol=1e-6)
        c.check("evaluated_where_asked", And(*[same(lw(c, p), v["probe"]) for p, d in seen["vg"]]))
        c.check("same_loss_data", TRUE if all(d == data for p, d in seen["vg"]) else FALSE)
        c.check("starts_where_asked", same(lw(c, seen["x0"]), v["start"]))
        used = "adam" not in seen
        valid = And(B(ok), G("lt", 0.0, loss)) if fun is None else FALSE
        c.check("primary_kept_iff_valid", valid if used else Not(valid))
        p, l_, t_, code = r
        if used:
            c.check("primary_result", And(same(p, v["ans"]), eq(l_, loss), B(t_), eq(code, 0)))
            return
        (a, k), = seen["adam"]
        names = ("loss_and_grad_func", "params_init", "loss_data", "n_step", "n_warmup")
        got = {**dict(zip(names, a)), **k}
        c.check("fallback_asked_the_same", And(
            TRUE if got["loss_and_grad_func"] is vg and got["loss_data"] == data and got["n_step"] == 11 and
            got.get("n_warmup") == 3 else FALSE, same(lw(c, got["params_init"]), v["start"])))
        c.check("fallback_result", And(same(p, v["aans"]), eq(l_, aloss), Iff(B(t_), B(aok)), eq(code, 1)))
    return sc


ck.paths(fallback("finite"), "finite", min_paths=2)
for k in BAD:
    ck.paths(fallback(k), k)
ck.finish()
