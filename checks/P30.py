from _fakes import WORLD
from _fit import *  # noqa
from _batch import Batch, SimpleNamespace, SN, h5py
from diffmah.data_loaders import load_hacc_mahs, load_bpl_um_data, load_tng_mahs, load_galacticus_eps_mahs  # noqa

NT = 3
NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")
ck = Check("P30", "Batch fits on any number of ranks keep one row per halo, in order",
           bounds=f"the fitting scripts on 1-3 and 12 ranks and 1-4 and 12 halos of {NT} snapshots (ranks may have one halo or none), any masses and "
                  "times, every order of execution of 2 ranks between communicator calls, 1-2 subvolumes and 1-2 chunks",
           outside="more ranks, halos or chunks; the message-passing library and the file readers (stand-ins); the fitter "
                   "itself (any function of its inputs, see P17); preempting a rank between two communicator calls; "
                   "scripts/fitting_scripts/history_fitting_script.py (needs modules this version no longer has)",
           assumptions=["real arithmetic", "point-to-point messages arrive in order"])


def lf(c, x):
    return SN.lift(x) if c.sym else x


def close(a, b):
    return Or(within(a - b, -5.1e-6 * b, 5.1e-6 * b), within(a - b, 5.1e-6 * b, -5.1e-6 * b))


def fitter(c, log):
    """stands for the fitter: its result tells what it was given"""
    def fit(t, m, *a, **k):
        log.append((t, m, a, k))
        p = (m[0], m[1], m[2], t[0], t[-1])
        n = len(t)
        skip = bool(k.get("force_skip_fit", False))
        ld = SimpleNamespace(t_target=t, log_mah_target=np.arange(n, dtype=float), u_t_peak=None, logt0=None)
        return fh.DiffmahFitResult(dk.DEFAULT_MAH_PARAMS._make(p), m[-1], skip, not skip, -1 if skip else 1, ld)
    return fit


def mass_table(c, tag, n, lo=1, hi=1e3):
    a = np.empty((n, NT), dtype=object if c.sym else float)
    for i in range(n):
        for k in range(NT):
            a[i, k] = c.real(f"{tag}{i}_{k}", lo, hi)
    return a


def rows(c, b, name, want, ids=None):
    """the collated file holds exactly these fits: (times, masses, fitted?) per row"""
    if name not in b.files():
        c.check(f"{name}:written", FALSE)
        return
    cols = {k: arr_(SN.lower(v) if c.sym else v) for k, v in b.columns(name).items()}
    c.check(f"{name}:columns", TRUE if sorted(cols) == sorted(NAMES + (("halo_id",) if ids is not None else ())) else FALSE)
    c.check(f"{name}:rows", TRUE if all(v.shape == (len(want),) for v in cols.values()) else FALSE)
    gs = []
    for i, (t, m, fitted) in enumerate(want):
        exp = dict(zip(NAMES, (m[0], m[1], m[2], t[0], t[-1], m[-1])))
        for k, x in exp.items():
            got = cols.get(k, np.zeros(0))
            gs.append(close(got[i], x) if len(got) > i else FALSE)
        for k, x in (("n_points_per_fit", len(t) - 1), ("fit_algo", 1 if fitted else -1)):
            got = cols.get(k, np.zeros(0))
            gs.append(eq(got[i], x) if len(got) > i else FALSE)
        if ids is not None:
            got = cols.get("halo_id", np.zeros(0))
            gs.append(eq(got[i], ids[i]) if len(got) > i else FALSE)
    c.check(f"{name}:fits", And(*gs))


def clean(c, b, keep):
    """only the results are left, and nothing else was touched"""
    c.check("files_left", TRUE if b.files() == sorted(keep) else FALSE)
    c.check("nothing_else_deleted", TRUE if not b.escapes else FALSE)


def cumulative(a):
    return [cummax(list(r)) for r in a]


def tng(n, nranks, order):
    def sc(c):
        lg, t = mass_table(c, "lgm", n, 5.5, 16), c.vec("t", NT, 0.1, 14)
        log = []
        with Batch(c, "tng_diffmah_fitter_script.py") as b:
            get = lambda fn, *a, **k: dict(mpeakh=lf(c, lg)) if "diffmah.npy" in fn else lf(c, t)  # noqa
            b.ov["load"] = get
            ok = b.run(["in", b.out], nranks, order, attrs=[(fh, "diffmah_fitter", fitter(c, log))])
            c.check("finishes", TRUE if ok else FALSE)
            h = 0.6774
            rows(c, b, "diffmah_tng_fits.hdf5", [(list(t), [pow10(x) / h for x in r], True) for r in cumulative(lg)])
            clean(c, b, ["diffmah_tng_fits.hdf5"])
    return sc


def bolshoi(n, nranks, order, sub=("-istart", "1", "-iend", "2")):
    def sc(c):
        m = mass_table(c, "m", n, 10, 1e6)
        scale, age = c.vec("scale", NT, 0.01, 1), c.vec("age", NT, 0.1, 14)
        hid = [c.integer(f"id{i}", 1, 3) for i in range(n)]
        log, asked = [], []
        ids = np.empty(n, dtype=object if c.sym else np.int64)
        ids[:] = [2 ** 60 + (SN.SR(x) if c.sym else x) for x in hid]
        WORLD["um"] = lambda sub, drn, galprops: asked.append(list(sub)) or dict(
            halo_id=SN.SA.of(ids) if c.sym else ids, mpeak_history_main_prog=lf(c, m))
        WORLD["age"] = lambda z, *p: lf(c, age)
        with Batch(c, "bolshoi_planck_fitting_script.py") as b:
            text = b.ov.get("loadtxt", np.loadtxt)
            b.ov["loadtxt"] = lambda fn, *a, **k: lf(c, scale) if "scale_list" in str(fn) else text(fn, *a, **k)
            ok = b.run(["in", b.out, *sub], nranks, order, attrs=[(fh, "diffmah_fitter", fitter(c, log))])
            c.check("finishes", TRUE if ok else FALSE)
            c.check("subvolumes", TRUE if asked and all([int(x) for x in s] == [1, 2] for s in asked) else FALSE)
            c.check("mass_floor", And(*[eq(k.get("lgm_min", a[0] if a else -1), 10.0) for t, x, a, k in log]))
            want = cumulative(m)
            idl = [x.p if isinstance(x, SN.SR) else int(x) for x in ids]
            rows(c, b, "diffmah_fits.hdf5", [(list(age), r, True) for r in want], idl)
            clean(c, b, ["bpl_mpeak_histories.hdf5", "diffmah_fits.hdf5"])
            if "bpl_mpeak_histories.hdf5" in b.files():
                t = {k: arr_(SN.lower(v) if c.sym else v) for k, v in b.columns("bpl_mpeak_histories.hdf5").items()}
                c.check("targets", And(same(t["bpl_t_table"], list(age)), same(t["halo_id"], idl), same(
                    t["mpeak_history"].reshape(-1), [x for r in want for x in r])), tol=1e-6)
    return sc


def galacticus(n, nranks, order, same_times=False):
    """halos with their own time tables, of which the last times may differ"""
    def sc(c):
        m = mass_table(c, "m", n)
        t = mass_table(c, "t", 1 if same_times else n, 0.1, 14)
        for r in t:
            for k in range(NT - 1):
                c.assume(lt(r[k], r[k + 1]))
        if same_times:
            c.assume(lt(t[0, 0] + 0.5, t[0, -1]))
            t = np.array([t[0]] * n)
        log = []
        with Batch(c, "galacticus_diffmah_fitter_script.py") as b:
            fn = os.path.join(b.dir, "g.hdf5")
            with b.h5file(fn, "w") as f:
                for k, a in (("haloAccretionHistoryMass", m), ("haloAccretionHistoryTime", t)):
                    k = "Outputs/Output1/nodeData/" + k
                    if c.sym:
                        v = np.empty(n, dtype=object)
                        for i in range(n):
                            v[i] = lf(c, a[i])
                        f[k] = v
                    else:
                        d = f.create_dataset(k, (n,), dtype=h5py.vlen_dtype(np.dtype(float)))
                        for i in range(n):
                            d[i] = a[i]
                for k in ("nodeIsIsolated", "basicTimeLastIsolated"):
                    f["Outputs/Output1/nodeData/" + k] = np.zeros(n)
            ok = b.run(["-indir", b.dir, "-inbn", "g.hdf5", "-outdir", b.out, "-outbn", "fits.h5"], nranks, order,
                       attrs=[(fh, "diffmah_fitter", fitter(c, log))])
            c.check("finishes", TRUE if ok else FALSE)
            clean(c, b, ["fits.h5"])
            if "fits.h5" not in b.files():
                c.check("written", FALSE)
                return
            cols = {k: arr_(SN.lower(v) if c.sym else v) for k, v in b.columns("fits.h5").items()}
            c.check("columns", TRUE if sorted(cols) == sorted(NAMES) else FALSE)
            c.check("rows", TRUE if all(v.shape == (n,) for v in cols.values()) else FALSE)
            t0 = t[0, -1]
            for i in range(1, n):
                t0 = maximum(t0, t[i, -1])
            gs = []
            for i, r in enumerate(cumulative(m)):
                got = {k: v[i] if len(v) > i else None for k, v in cols.items()}
                for k, x in dict(logm0=r[0], logtc=r[1], early_index=r[2], late_index=t[i, 0], t_peak=t0, loss=r[-1]).items():
                    gs.append(close(got[k], x) if got.get(k) is not None else FALSE)
                if same_times:
                    gs += [eq(got["fit_algo"], 1), eq(got["n_points_per_fit"], NT - 1)]
                    continue
                c.check(f"skipped:{i}", Iff(lt(t[i, -1] - t[i, 0], 0.5), eq(got["fit_algo"], -1)))
                c.check(f"points:{i}", eq(got["n_points_per_fit"], NT - 1) if n == 1 else
                        Iff(lt(t[i, -1], t0), eq(got["n_points_per_fit"], NT)))
            c.check("fits", And(*gs))
    return sc


def hacc_world(c, b, masses, asked):
    h = c.real("h", 0.4, 1.0)
    age = c.vec("age", NT, 0.1, 14)
    zs = c.vec("z", NT, 0, 10)
    sim = SimpleNamespace(cosmo=SimpleNamespace(h=lf(c, h), Omega_m=0.3, w0=-1.0, wa=0.0), cosmotools_steps=[1, 2, 3],
                          step2z=lambda s: lf(c, zs))
    WORLD["sim"] = lambda n: asked.append(n) or sim

    def read(fn, *a, nchunks=None, chunknum=None, **k):
        return {"infall_tree_node_mass": lf(c, masses[os.path.basename(fn), int(chunknum), int(nchunks)])}
    WORLD["hacc"] = read
    WORLD["age"] = lambda z, *p: lf(c, age)
    return h, age


def hacc(script, n, nranks, order, subvols, nchunks, total=2, argv=(), sims=None):
    """all requested subvolumes, chunk by chunk, each into its own file"""
    def sc(c):
        base = "m000p.coreforest.{}.hdf5"
        m = {(base.format(s), k, nchunks): mass_table(c, f"m{s}_{k}_", n + (s + k) % 2)
             for s in range(total) for k in range(nchunks)}
        log, asked = [], []
        with Batch(c, script) as b:
            for s in range(total):
                open(os.path.join(b.dir, base.format(s)), "w").close()
            h, age = hacc_world(c, b, m, asked)
            args = [b.dir, *(sims or ()), b.out]
            if sims is None:
                args += ["fits.h5", "-num_subvols_tot", str(total)]
            ok = b.run([*args, "-nchunks", str(nchunks), *argv], nranks, order,
                       attrs=[(fh, "diffmah_fitter", fitter(c, log))])
            c.check("finishes", TRUE if ok else FALSE)
            keep = {}
            for s in subvols:
                for k in range(nchunks):
                    keep[f"subvol_{s}_chunk_{k:0{len(str(nchunks))}d}.hdf5"] = m[base.format(s), k, nchunks]
            for fn, a in keep.items():
                rows(c, b, fn, [(list(age), [x / h for x in r], True) for r in cumulative(a)])
            clean(c, b, list(keep))
    return sc


def unchunk(istart, iend):
    """the chunks of a subvolume become one table, in chunk order"""
    def sc(c):
        nch = 20
        data = {}
        for s in range(istart - 1, iend + 1):
            for k in range(nch):
                n = 2 if k in (0, 11) else 1 if k % 3 else 0
                data[s, k] = [[c.real(f"{x}{s}_{k}_{i}", -100, 100) for i in range(n)] for x in ("logm0", "t_peak")]
        dl = SimpleNamespace()
        with Batch(c, "unchunk_last_journey_script.py", modules={"diffsky": dl, "diffsky.data_loaders": dl}) as b:
            ind = os.path.join(b.dir, "chunks")
            os.mkdir(ind)

            def load(fn):
                with b.h5file(fn) as f:
                    return {k: f[k][()] for k in f.keys()}
            dl.load_flat_hdf5 = load
            for (s, k), v in data.items():
                with b.h5file(os.path.join(ind, f"subvol_{s}_chunk_{k:02d}.hdf5"), "w") as f:
                    for x, y in zip(("logm0", "t_peak"), v):
                        f[x] = SN.SA.of(np.array([SN.SR(z) for z in y], dtype=object)) if c.sym else np.array(y, dtype=float)
            b.run([str(istart), str(iend), "-indir", ind, "-outdir", b.out])
            names = [f"subvol_{s}_diffmah_fits.hdf5" for s in range(istart, iend)]
            clean(c, b, names)
            for s, fn in zip(range(istart, iend), names):
                if fn not in b.files():
                    c.check(f"written:{s}", FALSE)
                    continue
                cols = {k: arr_(SN.lower(v) if c.sym else v) for k, v in b.columns(fn).items()}
                c.check(f"columns:{s}", TRUE if sorted(cols) == ["logm0", "t_peak"] else FALSE)
                for j, x in enumerate(("logm0", "t_peak")):
                    c.check(f"{x}:{s}", same(cols.get(x, np.zeros(0)), [y for k in range(nch) for y in data[s, k][j]]))
            gone = [f"subvol_{s}_chunk_{k:02d}.hdf5" for s in range(istart, iend) for k in range(nch)]
            c.check("chunks_left", TRUE if not set(os.listdir(ind)) - {
                f"subvol_{s}_chunk_{k:02d}.hdf5" for s, k in data} and all(
                f"subvol_{s}_chunk_{k:02d}.hdf5" in os.listdir(ind) for s, k in data
                if f"subvol_{s}_chunk_{k:02d}.hdf5" not in gone) else FALSE)
    return sc


LJ, DISC = "hacc_lastjourney_diffmah_fitter_script.py", "hacc_discovery_sims_diffmah_fitter_script.py"


def orders(n):
    return [list(range(n)), list(range(n))[::-1]]


if __name__ == "__main__":
    for n, nr in ((3, 2), (1, 2)) + (((2, 2), (4, 2)) if THOROUGH else ()):
        ck.paths(tng(n, nr, None), f"tng:{n}halos:{nr}ranks")
        ck.paths(bolshoi(n, nr, None), f"bolshoi:{n}halos:{nr}ranks")
        ck.paths(hacc(LJ, n, nr, None, (0,), 1, 1), f"lastjourney:{n}halos:{nr}ranks")
        ck.paths(hacc(DISC, n, nr, None, (0,), 1, 1, sims=("LCDM",)), f"discovery:{n}halos:{nr}ranks")
    ck.paths(galacticus(2 if THOROUGH else 1, 2, None), "galacticus:2ranks")
    for n, nr in ((2, 1), (2, 2), (4, 3), (2, 3)):
        for k, o in enumerate(orders(nr)[:2 if nr > 1 else 1]):
            ck.paths(tng(n, nr, o), f"tng:{n}halos:{nr}ranks:order{k}")
            ck.paths(bolshoi(n, nr, o), f"bolshoi:{n}halos:{nr}ranks:order{k}")
            if n < 4 or THOROUGH:
                ck.paths(galacticus(n, nr, o), f"galacticus:{n}halos:{nr}ranks:order{k}")
    o = orders(12)[1]
    ck.paths(tng(12, 12, o), "tng:12ranks")
    ck.paths(bolshoi(12, 12, o), "bolshoi:12ranks")
    ck.paths(galacticus(12, 12, o, True), "galacticus:12ranks")
    ck.paths(hacc(LJ, 12, 12, o, (0,), 1, 1), "lastjourney:12ranks")
    ck.paths(hacc(DISC, 12, 12, o, (0,), 1, 1, sims=("LCDM",)), "discovery:12ranks")
    for k, o in enumerate(orders(2)):
        ck.paths(hacc(LJ, 2, 2, o, (0, 1), 2), f"lastjourney:subvolumes:order{k}")
        ck.paths(hacc(DISC, 2, 2, o, (0, 1), 2, sims=("W0WA",)), f"discovery:subvolumes:order{k}")
    ck.paths(hacc(LJ, 1, 1, [0], (1,), 11, 3, ("-istart", "1", "-iend", "2")), "lastjourney:range")
    ck.paths(hacc(DISC, 1, 1, [0], (1, 2), 1, 3, ("-istart", "1"), sims=("LCDM",)), "discovery:range")
    ck.paths(unchunk(1, 3 if THOROUGH else 2), "unchunk")
    ck.finish()
