from _comps import *

ck = Check("P06", "Every population component's transform is bounded, monotone and invertible",
           bounds="every real unbounded vector; every physical vector strictly inside the declared ranges",
           outside="floating-point saturation of the sigmoid",
           assumptions=["real arithmetic; exp/log by their mathematical definition",
                        "the declared range of a parameter is the one its module publishes"])

for comp in components():
    def fwd(c, comp=comp):
        u = comp.UT(*[c.real(f) for f in comp.u_fields])
        v = comp.UT(*[c.real(f + "_b") for f in comp.u_fields])
        p = c.call(comp.gb, u)
        q = c.call(comp.gb, v)
        w = c.call(comp.gu, p)
        for f in comp.fields:
            lo, hi = getattr(comp.bounds, f)
            x, y = getattr(p, f), getattr(q, f)
            ux, uy = getattr(u, "u_" + f), getattr(v, "u_" + f)
            c.check(f"range:{f}", And(lt(dec(lo), x), lt(x, dec(hi))), tol=1e-6)
            c.check(f"own:{f}", Implies(eq(ux, uy), eq(x, y)), tol=1e-6)
            c.check(f"increasing:{f}", Implies(lt(ux, uy), lt(x, y)))
            c.check(f"inverse:{f}", eq(getattr(w, "u_" + f), ux), tol=1e-5)

    def bwd(c, comp=comp):
        p = comp.PT(*[c.real(f, float(b[0]), float(b[1]), lo_open=True, hi_open=True)
                      for f, b in zip(comp.fields, comp.bounds)])
        u = c.call(comp.gu, p)
        q = c.call(comp.gb, u)
        for f in comp.fields:
            c.check(f"roundtrip:{f}", eq(getattr(q, f), getattr(p, f)), tol=1e-5)

    def dflt(c, comp=comp):
        d = comp.defaults
        u = c.call(comp.gu, d)
        q = c.call(comp.gb, u)
        for f in comp.fields:
            lo, hi = getattr(comp.bounds, f)
            c.check(f"default_in_range:{f}", within(float(getattr(d, f)), float(lo), float(hi)))
            c.check(f"default_roundtrip:{f}", eq(getattr(q, f), float(getattr(d, f))), tol=1e-5)

    ck.scenario(fwd, "transform:" + comp.name)
    ck.scenario(bwd, "inverse:" + comp.name)
    ck.scenario(dflt, "defaults:" + comp.name)

ck.finish()
