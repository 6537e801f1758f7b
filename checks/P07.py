from _pop import *
import inspect

ck = Check("P07", "The full population parameter transform routes every parameter by name",
           bounds="every real unbounded vector in [-200,200]; every physical vector strictly inside the published "
                  "ranges; both directions; every choice of the parameters held fixed is covered by name-wise "
                  "routing of single, adjacent-pair and alternating subsets",
           outside="floating-point saturation of the sigmoid",
           assumptions=["real arithmetic; exp/log by their mathematical definition"])
UT = dpp.DiffmahPop_UParams
PT = dpp.DiffmahPop_Params
U = (-200.0, 200.0)


@ck.scenario
def forward(c):
    """each physical parameter depends on its own unbounded partner only and stays in its range"""
    u = UT(*[c.real(f, *U) for f in UT._fields])
    v = UT(*[c.real(f + "_b", *U) for f in UT._fields])
    p = c.call(dpp.get_diffmahpop_params_from_u_params, u)
    q = c.call(dpp.get_diffmahpop_params_from_u_params, v)
    for f in PT._fields:
        lo, hi = bounds()[f]
        x, y = getattr(p, f), getattr(q, f)
        ux, uy = getattr(u, "u_" + f), getattr(v, "u_" + f)
        c.check(f"range:{f}", And(le(dec(lo), x), le(x, dec(hi))), tol=1e-6)
        c.check(f"own:{f}", Implies(eq(ux, uy), eq(x, y)), tol=1e-6)
        c.check(f"increasing:{f}", Implies(lt(ux, uy), lt(x, y)))


@ck.scenario
def inverse(c):
    u = UT(*[c.real(f, *U) for f in UT._fields])
    p = c.call(dpp.get_diffmahpop_params_from_u_params, u)
    w = c.call(dpp.get_diffmahpop_u_params_from_params, p)
    for f in UT._fields:
        c.check(f"inverse:{f}", eq(getattr(w, f), getattr(u, f)), tol=1e-5)


@ck.scenario
def backward(c):
    b = bounds()
    p = PT(*[c.real(f, *b[f], lo_open=True, hi_open=True) for f in PT._fields])
    u = c.call(dpp.get_diffmahpop_u_params_from_params, p)
    q = c.call(dpp.get_diffmahpop_params_from_u_params, u)
    for f in PT._fields:
        c.check(f"roundtrip:{f}", eq(getattr(q, f), getattr(p, f)), tol=1e-5)


@ck.scenario
def components(c):
    """the per-component views carry exactly their own fields, unchanged"""
    p = pop(c)
    comps = c.call(dpp.get_component_model_params, p)
    n = 0
    for k in comps:
        for f in k._fields:
            n += 1
            c.check(f"field:{f}", eq(getattr(k, f), getattr(p, f)))
    c.check("every_field_once", TRUE if n == len(PT._fields) else FALSE)
    u = UT(*[c.real("v_" + f, *U) for f in UT._fields])
    comps = c.call(dpp.get_component_model_u_params, u)
    n = 0
    for k in comps:
        for f in k._fields:
            n += 1
            c.check(f"u_field:{f}", eq(getattr(k, f), getattr(u, f)))
    c.check("every_u_field_once", TRUE if n == len(UT._fields) else FALSE)


def subsets():
    F = list(PT._fields)
    out = [[f] for f in F[::(1 if THOROUGH else 4)]] + [F[i:i + 2] for i in range(0, len(F) - 1, 1 if THOROUGH else 4)]
    out += [F[::2], F[1::2], F[:20], F[20:], F[::-1][:15], F, F[::3], F[1::3]]
    return out


@ck.scenario
def overriding(c):
    """replacing some parameters changes those and only those"""
    from collections import namedtuple
    d = pop(c)
    for k, sub in enumerate(subsets()):
        V = namedtuple("V", sub)
        v = V(*[c.real(f"w{k}_{f}", *bounds()[f]) for f in sub])
        full = c.call(dpp._get_all_diffmahpop_params_from_varied, v, d)
        for f in PT._fields:
            want = getattr(v, f) if f in sub else getattr(d, f)
            g = eq(getattr(full, f), want)
            if k == 0 or f in sub or f in (PT._fields[0], PT._fields[-1]) or THOROUGH:
                c.check(f"set{k}:{f}", g)


@ck.scenario
def excluded(c):
    """excluding names leaves the other parameters, in order, at their values; putting them back restores the vector"""
    d = pop(c)
    g = dpp.get_varied_params_by_exclusion
    for k, sub in enumerate(subsets()):
        if len(sub) == len(PT._fields):
            continue

        def run(p, sub=sub):
            dpp.float = lambda x: x
            try:
                return g(p, sub)
            finally:
                del dpp.float
        v = c.call(run, d)
        keep = [f for f in PT._fields if f not in sub]
        c.check(f"set{k}:names", TRUE if list(v._fields) == keep else FALSE)
        c.check(f"set{k}:values", And(*[eq(getattr(v, f), getattr(d, f)) for f in keep if f in v._fields]))
        full = c.call(dpp._get_all_diffmahpop_params_from_varied, v, d)
        c.check(f"set{k}:restored", eq(stack(*full), stack(*d)))


ck.finish()
