from _fit import *
from _h5 import session
from types import SimpleNamespace

NH = 3 if THOROUGH else 2
NT = 4
NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")
ck = Check("P20", "Fit results survive the text format and the collated file, column by column",
           bounds=f"{NH} fits with any parameters and losses in [-1e6,1e6], fit histories of {NT} points in any order, any "
                  "fit code, halo ids up to 2^62 including those beyond 2^53; zero history points",
           outside="more halos; non-finite parameters; text beyond the printed digits (relative 5e-6)",
           assumptions=["real arithmetic", "Python's float formatting rounds to nearest",
                        "h5py is replaced by an in-memory stand-in in the symbolic run, real files on replay"])


def fit(c, k, npts=NT, lo=-1e6, hi=1e6):
    p = [c.real(f"p{k}_{i}", lo, hi) for i in range(5)]
    loss = c.real(f"loss{k}", lo, hi)
    lm = [c.real(f"lm{k}_{i}", 0, 16) for i in range(npts)]
    code = [-1, 0, 1][k % 3]
    data = fh.get_loss_data
    r = dict(p=p, loss=loss, lm=lm, code=code)
    return r


def as_result(c, r):
    lf = H.SN.lift if c.sym else (lambda x: x)
    arr = lf(stack(*r["lm"])) if r["lm"] else np.zeros(0)
    ld = fh.DiffmahFitLossData(None, arr, None, None) if hasattr(fh, "DiffmahFitLossData") else \
        SimpleNamespace(t_target=None, log_mah_target=arr, u_t_peak=None, logt0=None)
    return fh.DiffmahFitResult(dk.DEFAULT_MAH_PARAMS._make([lf(x) for x in r["p"]]), lf(r["loss"]), False, True,
                               r["code"], ld)


def close(a, b):
    """equal to the printed precision"""
    return Or(within(a - b, -5.1e-6 * b, 5.1e-6 * b), within(a - b, 5.1e-6 * b, -5.1e-6 * b))


def count(r):
    lm = r["lm"]
    if not lm:
        return 0
    n = 0
    for x in lm:
        n = n + where_(G("lt", x, lm[-1]))
    return n


def where_(g):
    return where(g, 1.0, 0.0)


def points(c, name, r, got):
    """how many points lie strictly below the last one"""
    lm = r["lm"]
    if not lm:
        c.check(name, eq(got, 0))
        return
    for n in range(len(lm)):
        c.check(f"{name}:{n}", Iff(eq(got, float(n)), Or(*[
            And(*[G("lt", lm[i], lm[-1]) if i in ix else Not(G("lt", lm[i], lm[-1])) for i in range(len(lm) - 1)])
            for ix in itertools.combinations(range(len(lm) - 1), n)])))


def text(npts, *rng):
    def sc(c):
        r = fit(c, 0, npts, *rng)
        line = c.py(fh.get_outline, as_result(c, r))
        c.check("one_line", TRUE if line.endswith("\n") and line.count("\n") == 1 else FALSE)
        d = c.py(fh._parse_outline, line)
        c.check("columns", TRUE if tuple(d._fields) == NAMES == tuple(fh.HEADER[1:].split()) else FALSE)
        for i in range(5):
            c.check(NAMES[i], close(d[i], r["p"][i]))
        c.check("loss", close(d.loss, r["loss"]))
        points(c, "n_points", r, d.n_points_per_fit)
        c.check("fit_algo", eq(d.fit_algo, r["code"]))
    return sc


ck.paths(text(NT), "text")
ck.paths(text(0), "text:no_points")
ck.paths(text(2, 2e-7, 4e-6), "text:tiny")


def ids(c, k):
    """halo id: an integer, small or beyond the range in which floats are exact"""
    n = c.real(f"int:id{k}", 0, 1000)
    if c.sym:
        X = H.X
        return [lambda: H.SN.SR(X.const(2 ** 53 * (k + 1) + 1) + 2 * n), lambda: H.SN.SR(n)]
    return [lambda: 2 ** 53 * (k + 1) + 1 + 2 * int(round(float(n))), lambda: int(round(float(n)))]


def collated(with_id, big):
    def sc(c, disk):
        rs = [fit(c, k, 2) for k in range(NH)]
        hid = [ids(c, k)[0 if big else 1]() for k in range(NH)]
        rows = []
        for k, r in enumerate(rs):
            kw = dict(halo_id=hid[k]) if with_id else {}
            rows.append(c.py(lambda: fh.get_outline(as_result(c, r), **kw)).split())
        tab = H.SN.SA.of(np.array(rows, dtype=object)) if c.sym else np.array(rows)
        c.py(lambda: fh.write_collated_data(disk.path("out.h5"), tab), attrs=disk.attrs)
        cols = disk.columns("out.h5")
        want = (("halo_id",) if with_id else ()) + NAMES
        c.check("columns", TRUE if sorted(cols) == sorted(want) else FALSE)
        lw = H.SN.lower if c.sym else (lambda x: x)
        cols = {k: arr_(lw(v)) for k, v in cols.items()}
        c.check("rows", TRUE if all(len(v) == NH for v in cols.values()) else FALSE)
        for k, r in enumerate(rs):
            for i in range(5):
                c.check(f"{NAMES[i]}:{k}", close(cols[NAMES[i]][k], r["p"][i]))
            c.check(f"loss:{k}", close(cols["loss"][k], r["loss"]))
            points(c, f"n_points:{k}", r, cols["n_points_per_fit"][k])
            c.check(f"fit_algo:{k}", eq(cols["fit_algo"][k], r["code"]))
            if with_id:
                h = lw(hid[k])
                g = cols["halo_id"][k]
                c.check(f"halo_id:{k}", eq(g, h) if c.sym else (TRUE if int(g) == int(h) else FALSE))
    return session(sc)


ck.paths(collated(False, False), "collated")
ck.paths(collated(True, False), "collated:halo_id")
ck.paths(collated(True, True), "collated:large_halo_id")
ck.finish()
