from _fit import *
from diffmah.fitting_helpers import measure_mahs as mm
from scipy.stats import mstats

NH, NT = (3, 4) if THOROUGH else (2, 3)
ck = Check("P26", "Tabulated target moments are population averages of rescaled histories; outliers are removed by z-score",
           bounds=f"{NH} halos x {NT} times with any masses in [1e6,1e15], growth rates in [1e-3,1e4] and increasing times; "
                  "any observed mass in [1e10,1e15.5]; outlier masks of up to 4 halos with one halo trimmed at each end or none",
           outside="larger populations; identical halos (zero variance)", assumptions=[
               "real arithmetic", "scipy's trimmed statistics are replaced by their definition (validated on replay)"])


def grid(c, name, lo, hi, log):
    v = [[c.real(f"{name}{i}_{k}", lo, hi) for k in range(NT)] for i in range(NH)]
    a = np.empty((NH, NT), dtype=object if c.sym else float)
    for i, k in np.ndindex(NH, NT):
        a[i, k] = pow10(v[i][k]) if log else v[i][k]
    return v, a


def world(c):
    lg, mah = grid(c, "lgm", 6, 15, True)
    dm, dmhdt = grid(c, "dmhdt", 1e-3, 1e4, False)
    lgt = [c.real(f"lgt{k}", -1, 1.2) for k in range(NT)]
    for a, b in zip(lgt, lgt[1:]):
        c.assume(le(a + 1e-3, b))
    lgmp = c.real("lgmp", 10, 15.5)
    sc = [[lgmp + lg[i][k] - lg[i][-1] for k in range(NT)] for i in range(NH)]
    rate = [[pow10(lgmp - lg[i][-1]) * dm[i][k] for k in range(NT)] for i in range(NH)]
    return lg, mah, dm, dmhdt, lgt, lgmp, sc, rate


def mean(xs):
    return sum(xs[1:], xs[0]) / len(xs)


def var(xs):
    m = mean(xs)
    return mean([(x - m) * (x - m) for x in xs])


def col(rows, k):
    return [r[k] for r in rows]


OUT = ("mean_mah", "mean_log_mah", "var_log_mah", "mean_dmhdt", "var_dmhdt")


def tables(sc, rate, k):
    return (mean([pow10(x) for x in col(sc, k)]), mean(col(sc, k)), var(col(sc, k)),
            mean(col(rate, k)), var(col(rate, k)))


def distinct(c, sc, rate):
    for k in range(NT):
        c.assume(le(0.1, mean(col(sc, k))))
        c.assume(lt(1e-8, var(col(rate, k))))


def knots(k):
    def s(c):
        lg, mah, dm, dmhdt, lgt, lgmp, sc, rate = world(c)
        distinct(c, sc, rate)
        out = c.py(mm.measure_target_data, mah, dmhdt, stack(*lgt), stack(lgt[k]), lgmp)
        for n, got, want in zip(OUT, out, tables(sc, rate, k)):
            if n == "var_log_mah" and k == NT - 1:
                want = 0.0
            big = n in ("mean_mah", "mean_dmhdt", "var_dmhdt")
            g = arr_(got)[0]
            c.check(n, And(TRUE if arr_(got).shape == (1,) else FALSE, lt(0.0, g) if big else TRUE,
                           eq(log10(g), log10(want)) if big else eq(g, want)), tol=1e-9)
        if k == NT - 1:
            c.check("observed_mass", And(eq(log10(arr_(out[0])[0]), lgmp), eq(arr_(out[1])[0], lgmp)), tol=1e-9)
    return s


for k in range(NT):
    ck.paths(knots(k), f"knot{k}")


@ck.paths
def between(c):
    """targets between two tabulated times lie between the two tabulated values"""
    lg, mah, dm, dmhdt, lgt, lgmp, sc, rate = world(c)
    distinct(c, sc, rate)
    w = c.real("w", 1e-3, 1 - 1e-3)
    out = c.py(mm.measure_target_data, mah, dmhdt, stack(*lgt), stack(lgt[0] + w * (lgt[1] - lgt[0])), lgmp)
    for n, got, a, b in zip(OUT, out, tables(sc, rate, 0), tables(sc, rate, 1)):
        if n.startswith("var"):
            continue
        g = arr_(got)[0]
        lo, hi = minimum(log10(a), log10(b)), maximum(log10(a), log10(b))
        c.check(n, within(log10(g), lo, hi), tol=1e-9)


@ck.paths
def own_mass_scale(c):
    """a common factor on one halo's masses and growth rates changes nothing"""
    lg, mah, dm, dmhdt, lgt, lgmp, sc, rate = world(c)
    distinct(c, sc, rate)
    f = c.real("lgf", -3, 3)
    x = stack(*lgt)
    mah2, dm2 = mah.copy(), dmhdt.copy()
    for k in range(NT):
        mah2[0, k], dm2[0, k] = mah[0, k] * pow10(f), dmhdt[0, k] * pow10(f)
    a = c.py(mm.measure_target_data, mah, dmhdt, x, x, lgmp)
    b = c.py(mm.measure_target_data, mah2, dm2, x, x, lgmp)
    for n, p, q in zip(OUT, a, b):
        c.check(n, And(*[
            eq(u, v) if "log" in n else eq(log10(u), log10(v)) for u, v in zip(arr_(p), arr_(q))]), tol=1e-9)


def trim(x, limits):
    v = list(H.SN._sort(x))
    n = len(v)
    lo, hi = int(limits[0] * n), int(limits[1] * n)
    return v[lo:n - hi]


def t_mean(x, limits=(0.1, 0.1), **kw):
    v = trim(x, limits)
    return sum(v[1:], v[0]) / len(v)


def t_std(x, limits=(0.1, 0.1), **kw):
    v = trim(x, limits)
    m = sum(v[1:], v[0]) / len(v)
    s = (v[0] - m) ** 2
    for q in v[1:]:
        s = s + (q - m) ** 2
    return (s / len(v)) ** 0.5


def cleaned(nh, nt, it_min, cut, order):
    def s(c):
        lim = 0.01 if cut == 0 else (cut + 0.3) / nh
        z = c.real("z_cut", 0.5, 5)
        lgmp = c.real("lgmp", 10, 15.5)
        last = [c.real(f"last{i}", 6, 15) for i in range(nh)]
        ok = [TRUE] * nh
        a = np.empty((nh, nt), dtype=object if c.sym else float)
        a[:, -1] = last
        for k in range(nt - 1):
            # scaled masses, sorted; presented in the given order
            u = [c.real(f"u{k}_{i}", -6, 0) for i in range(nh)]
            for p, q in zip(u, u[1:]):
                c.assume(le(p + 1e-3, q))
            perm = order[k % len(order)]
            for i in range(nh):
                a[perm[i], k] = last[perm[i]] + u[i]
            if k < it_min:
                continue
            kept = u[cut:nh - cut]
            m, v = mean(kept), var(kept)
            for i in range(nh):
                d2 = (u[i] - m) * (u[i] - m)
                c.assume(Not(within(d2, z * z * v - 1e-6, z * z * v + 1e-6)))
                j = perm[i]
                ok[j] = And(ok[j], lt(d2, z * z * v))
        got = c.py(mm.get_clean_sample_mask, a, lgmp, it_min, lim=lim, z_cut=z, attrs=(
            [(mstats, "trimmed_mean", t_mean), (mstats, "trimmed_std", t_std)] if c.sym else []))
        got = arr_(got)
        c.check("shape", TRUE if got.shape == (nh,) else FALSE)
        for i in range(nh):
            c.check(f"halo{i}", Iff(B(got[i]), ok[i]))
    return s


P3 = [(0, 1, 2), (2, 0, 1), (1, 2, 0)]
ck.paths(cleaned(2, 3, 0, 0, [(0, 1), (1, 0)]), "outliers2")
ck.paths(cleaned(3, 2, 0, 0, [P3[1]]), "outliers3")
ck.paths(cleaned(3, 3, 1, 0, P3), "outliers3:from1")
ck.paths(cleaned(4, 2, 0, 1, [(2, 0, 3, 1)]), "outliers4:trim1")
if THOROUGH:
    ck.paths(cleaned(3, 3, 0, 0, P3), "outliers3:all")
    ck.paths(cleaned(4, 3, 1, 1, [(0, 1, 2, 3), (2, 0, 3, 1)]), "outliers4:trim1:from1")
ck.finish()
