import numpy as np
from astropy.table import Table as AstropyTable
from types import SimpleNamespace
from collections import namedtuple
from _fit import *  # noqa
from _h5 import session  # noqa
from diffmah.data_loaders import io_utils as iou  # noqa
from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as ld  # noqa



class Table:
    """stand-in for astropy's Table: named columns of equal length, masked by a boolean array"""

    def __init__(self, cols=None):
        self.c = dict(cols or {})

    def __len__(self):
        return len(next(iter(self.c.values()))) if self.c else 0

    @property
    def colnames(self):
        return list(self.c)

    keys = lambda self: list(self.c)  # noqa

    def __contains__(self, k):
        return k in self.c

    def __setitem__(self, k, v):
        if np.ndim(v) == 0:
            v = np.zeros(len(self), dtype=type(v)) + v
        if self.c and len(v) != len(self):
            raise ValueError("Inconsistent data column lengths")
        self.c[k] = v

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        k = H.SN._index1(H.SN.SA.of(k)) if not isinstance(k, slice) else k
        return Table({n: v[k] for n, v in self.c.items()})


ck = Check("P27", "Population targets keep the requested rows, each with its own samples; parameter files round-trip",
           bounds="tables of 2 central and 2 satellite rows at fixed masses and times, 1 to 3 samples of any parameter values "
                  "each, 2 sampled without replacement in any way, any cuts in mass, time and number of samples; "
                  "parameter sets of 1 to 4 fields (scalars or short arrays) in any order",
           outside="larger tables; the distribution of the subsample", assumptions=[
               "real arithmetic", "astropy's Table and h5py are replaced by stand-ins in the symbolic run, numpy's "
               "file reader and random choice in both"])

ROWS = dict(cens=[(11.25, 3.27, 3), (13.5, 12.04, 2)], sats=[(11.25, 2.71, 2), (13.5, 3.27, 3)])
NS, NT = 2, 2
PAR = ("logm0", "logtc", "early_index", "late_index", "t_peak")
RNG = ((10, 16), (-0.5, 0.9), (1, 5), (0.1, 1), (1, 13))


def store(c, disk, nsamp):
    """the files of a tabulation: summary tables and one sample file per row"""
    lf = H.SN.lift if c.sym else (lambda x: x)
    files, tab = {}, {}
    for kind in ROWS:
        rows = ROWS[kind]
        lm = np.array([[c.real(f"{kind}:mlm{i}_{k}", 5, 16) for k in range(NT)] for i in range(len(rows))],
                      dtype=object if c.sym else float)
        t = np.array([[c.real(f"{kind}:t{i}_{k}", 0.5, 13.7) for k in range(NT)] for i in range(len(rows))],
                     dtype=object if c.sym else float)
        with disk.open(f"mean_var_{kind}.h5", "w") as f:
            f["lgm_obs"] = np.array([r[0] for r in rows])
            f["t_obs"] = np.array([r[1] for r in rows])
            f["mean_log_mah"] = lf(lm)
            f["t_table"] = lf(t)
        for i, r in enumerate(rows):
            n = nsamp[kind][i]
            v = np.array([[c.real(f"{kind}:{p}{i}_{k}", *rg) for p, rg in zip(PAR, RNG)] for k in range(n)],
                         dtype=object if c.sym else float)
            files[f"lgm_{r[0]:.2f}_t_{r[1]:.2f}_mah_params.{kind}.npy"] = v
        tab[kind] = lm, t
    return files, tab


PERMS = {2: [(0, 1), (1, 0)], 3: [(0, 1), (2, 0), (1, 2), (0, 2), (1, 0), (2, 1)]}


def targets(nsamp, pick, cut):
    def sc(c, disk):
        lf = H.SN.lift if c.sym else (lambda x: x)
        files, tab = store(c, disk, nsamp)

        def load(fn, *a, **k):
            fn = str(fn)
            d, base = os.path.split(fn)
            if d != os.path.dirname(disk.path("x")):
                raise FileNotFoundError(fn)
            return lf(files[base])

        def choice(a, size=None, replace=True, p=None):
            n = len(a) if np.ndim(a) else int(a)
            if replace or size != NS or p is not None:
                raise AssertionError("samples must be drawn without replacement")
            ix = PERMS[n][pick % len(PERMS[n])]
            return np.asarray(np.arange(n) if not np.ndim(a) else a)[list(ix)]

        kw = dict(n_sample_min=NS)
        cuts = {"cens": ("cen", 0.0, 99.0), "sats": ("sat", 0.0, 99.0)}
        for kind, (s, a, b) in cuts.items():
            tmin = c.real(f"tmin_{s}", 1, 14) if cut == kind else 2.0
            lmax = c.real(f"lmax_{s}", 10, 16) if cut == kind else 15.0
            if cut == kind:
                for r in ROWS[kind]:
                    c.assume(Not(within(tmin, r[1] - 1e-6, r[1] + 1e-6)))
                    c.assume(Not(within(lmax, r[0] - 1e-6, r[0] + 1e-6)))
            kw["t_obs_min_" + s], kw["lgm_obs_max_" + s] = tmin, lmax
            cuts[kind] = tmin, lmax
        rnd = SimpleNamespace(choice=choice, seed=lambda *a: None,
                              default_rng=lambda *a: SimpleNamespace(choice=choice))
        out = c.py(lambda **k: [{n: t[n] if c.sym else np.asarray(t[n]) for n in t.colnames}
                                for t in ld.load_diffmahpop_targets(disk.path(""), **k)],
                   np_overrides=dict(load=load, random=rnd), attrs=disk.attrs,
                   replace=[(AstropyTable, Table)] if c.sym else [], **kw)
        for kind, got in zip(("cens", "sats"), out):
            tmin, lmax = cuts[kind]
            lm, tt = tab[kind]
            keep = [And(lt(tmin, r[1]), lt(r[0], lmax), TRUE if nsamp[kind][i] >= NS else FALSE)
                    for i, r in enumerate(ROWS[kind])]
            n = len(got["lgm_obs"])
            for cond, kept in patterns(keep):
                # a row with too few samples is never kept, one that passes a fixed cut always is
                if any(nsamp[kind][i] < NS for i in kept) or cut != kind and len(kept) < sum(q >= NS for q in nsamp[kind]):
                    continue
                ok = [TRUE if n == len(kept) else FALSE]
                if n == len(kept):
                    for j, i in enumerate(kept):
                        r = ROWS[kind][i]
                        ok += [eq(arr_(got["lgm_obs"])[j], r[0]), eq(arr_(got["t_obs"])[j], r[1]),
                               eq(arr_(got["n_samples"])[j], nsamp[kind][i])]
                        res = arr_(got["mean_log_mah_rescaled"])[j]
                        ok += [eq(res[k], lm[i, k] - lm[i, -1] + r[0]) for k in range(NT)]
                        v = files[f"lgm_{r[0]:.2f}_t_{r[1]:.2f}_mah_params.{kind}.npy"]
                        ix = PERMS[len(v)][pick % len(PERMS[len(v)])]
                        par = dk.DEFAULT_MAH_PARAMS._make([stack(*[v[q, k] for q in ix]) for k in range(5)])
                        lg = H._arr(c.call(dk.mah_halopop, par, tt[i], np.log10(13.79))[1])
                        for q in range(NS):
                            for k, p in enumerate(PAR):
                                ok.append(eq(arr_(got[p + "_samples"])[j, q], v[ix[q], k]))
                            for k in range(NT):
                                g = arr_(got["log_mah_samples"])[j, q, k]
                                h = arr_(got["log_mah_rescaled_samples"])[j, q, k]
                                ok += [eq(g, lg[q, k]), eq(h, lg[q, k] - lg[q, -1] + r[0])]
                c.check(f"{kind}_kept" + "_".join(map(str, kept)), Implies(cond, And(*ok)), tol=1e-4)
    return session(sc)


FULL = dict(cens=(3, 2), sats=(2, 3))
FEW = dict(cens=(1, 3), sats=(2, 1))
for pick in range(6 if THOROUGH else 2):
    ck.paths(targets(FULL, pick, None), f"samples{pick}")
for cut in ("cens", "sats"):
    ck.paths(targets(FULL, 1, cut), "cuts:" + cut)
ck.paths(targets(FEW, 0, None), "too_few")


def rescale(nh, nt, scalar):
    def sc(c):
        v = [[c.real(f"lm{i}_{k}", 5, 16) for k in range(nt)] for i in range(nh)]
        lgm = [c.real(f"obs{i}", 9, 16) for i in range(1 if scalar else nh)]
        a = np.array(v, dtype=object if c.sym else float)
        got = arr_(c.py(ld.rescale_target_log_mahs, a, lgm[0] if scalar else stack(*lgm)))
        for i in range(nh):
            o = lgm[0 if scalar else i]
            c.check(f"halo{i}", And(*[eq(got[i, k], v[i][k] - v[i][-1] + o) for k in range(nt)]), tol=1e-6)
    return sc


for nh, nt in ((1, 2), (2, 3), (3, 3)):
    for s in (True, False):
        ck.paths(rescale(nh, nt, s), f"rescale{nh}x{nt}:" + ("one_mass" if s else "each"))


def roundtrip(fields, width):
    def sc(c, disk):
        cls = namedtuple("P", fields)
        vals = [c.real(f, -100, 100) if w == 0 else c.vec(f, w, -100, 100) for f, w in zip(fields, width)]
        c.py(lambda: iou.write_namedtuple_to_hdf5(cls(*[H.SN.lift(v) if c.sym else v for v in vals]), disk.path("p.h5")),
             attrs=disk.attrs)
        got = c.py(lambda: (lambda p: [list(p._fields), list(p)])(iou.load_namedtuple_from_hdf5(disk.path("p.h5"))),
                   attrs=disk.attrs)
        c.check("fields", TRUE if tuple(got[0]) == tuple(fields) else FALSE)
        for f, w, v, g in zip(fields, width, vals, got[1]):
            g = arr_(g)
            c.check(f, And(TRUE if g.shape == ((w,) if w else ()) else FALSE, *[
                eq(x, y) for x, y in zip(g.flat, arr_(v).flat)]))
    return session(sc)


NAMES = ("logm0", "logtc", "early", "alpha")
for n in range(1, 5):
    for i, p in enumerate(itertools.permutations(NAMES[:n])):
        if n < 4 or THOROUGH or i % 5 == 0:
            ck.paths(roundtrip(p, [0] * n if i % 2 else [0, 2, 1, 3][:n]), "roundtrip:" + "_".join(p))
ck.finish()
