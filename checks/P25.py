import importlib.util
from _fakes import *  # noqa
from _fit import *  # noqa
from _h5 import session  # noqa
from diffmah.data_loaders import load_bpl_um_data as bpl  # noqa
from diffmah.data_loaders import load_diffmah_pub_data as pub  # noqa
from diffmah.data_loaders import load_galacticus_eps_mahs as gal  # noqa
from diffmah.data_loaders import load_hacc_mahs as hacc  # noqa
from diffmah.data_loaders import load_tng_mahs as tng  # noqa

_spec = importlib.util.spec_from_file_location("diffmah.verif_load_mah_data",
                                               os.path.join(REPO, "scripts", "fitting_scripts", "load_mah_data.py"))
scr = importlib.util.module_from_spec(_spec)
sys.modules[_spec.name] = scr
_spec.loader.exec_module(scr)

NH, NT = (3, 5) if THOROUGH else (2, 4)
ck = Check("P25", "Loaded histories are cumulative peak masses in the stated units, halo by halo",
           bounds=f"{NH} halos x {NT} times with any masses in [1e5,1e16] or zero, any Hubble parameter and cosmology; scattering "
                  "of up to 6 rows over up to 4 ranks; row ranges over 4 rows",
           outside="larger catalogs; the file formats and third-party readers (numpy.load, haccytrees, umachine_pyio, dsps, mpi4py "
                   "are replaced by stand-ins)", assumptions=["real arithmetic"])


def lf(c, x):
    return H.SN.lift(x) if c.sym else x


def masses(c, log=False, zeros=()):
    """rows of log10 masses; snapshots at zero mass as listed"""
    lg = [[c.real(f"lgm{i}_{k}", 5, 16) for k in range(NT)] for i in range(NH)]
    z = 0 * lg[0][0]
    rows = [[z if k in zeros else (lg[i][k] if log else pow10(lg[i][k])) for k in range(NT)] for i in range(NH)]
    a = np.empty((NH, NT), dtype=object if c.sym else float)
    for i in range(NH):
        for k in range(NT):
            a[i, k] = rows[i][k]
    return lg, a


def arr_eq(got, want):
    got = arr_(got)
    return And(TRUE if got.shape == (len(want), len(want[0])) else FALSE,
               *[eq(got[i, k], want[i][k]) for i in range(len(want)) for k in range(len(want[0]))
                 if got.shape == (len(want), len(want[0]))])


def peaks(lg, zeros=()):
    """running maxima of the log masses; None before the first nonzero snapshot"""
    out = []
    for row in lg:
        r, m = [], None
        for k, x in enumerate(row):
            if k not in zeros:
                m = x if m is None else maximum(m, x)
            r.append(m)
        out.append(r)
    return out


def files(c, **tab):
    """stand-ins for numpy's file readers: whatever the file whose name ends so"""
    def get(fn, *a, **k):
        for n, v in tab.items():
            if n in str(fn):
                return v
        raise FileNotFoundError(fn)
    return dict(load=get, loadtxt=get)


def times(c):
    return c.vec("t", NT, 0.1, 14)


def tng_public(mod):
    def sc(c):
        lg, a = masses(c, True)
        t = times(c)
        ids, lm, tt, lgmin = c.py(mod.load_tng_data, "drn", np_overrides=files(
            c, diffmah=dict(mpeak=lf(c, a[:, -1]), mpeakh=lf(c, a)), cosmic_time=lf(c, t)))
        c.check("peak_masses", arr_eq(lm, peaks(lg)), tol=1e-9)
        c.check("times", same(tt, list(arr_(t))))
        c.check("ids", TRUE if list(np.asarray(ids).astype(int)) == list(range(NH)) else FALSE)
    return sc


ck.paths(tng_public(pub), "tng_public")
ck.paths(tng_public(scr), "script:tng")


def simulation(f, args, zeros):
    def sc(c):
        lg, a = masses(c, False, zeros)
        t = times(c)
        hid = np.array([7, 2 ** 60 + 1, 5][:NH])
        ids, lm, tt, lgmin = c.py(f, *args, np_overrides=files(c, diffmah=dict(
            halo_id=hid, mpeak_history_main_prog=lf(c, a)), cosmic_time=lf(c, t)))
        want = [[0.0 if x is None else x for x in r] for r in peaks(lg, zeros)]
        c.check("peak_log_masses", arr_eq(lm, want), tol=1e-9)
        c.check("times", same(tt, list(arr_(t))))
        c.check("ids", TRUE if [int(x) for x in np.asarray(ids)] == [int(x) for x in hid] else FALSE)
    return sc


for zeros in ((), (0,), (0, 1), (1,)):
    tag = ":zeros" + "".join(map(str, zeros)) if zeros else ""
    ck.paths(simulation(pub.load_bolshoi_data, ("cens", "drn"), zeros), "bolshoi" + tag)
    ck.paths(simulation(pub.load_mdpl2_data, ("cens", "drn"), zeros), "mdpl2" + tag)
    ck.paths(simulation(scr.load_bolshoi_data, ("cens", "drn"), zeros), "script:bolshoi" + tag)
    ck.paths(simulation(scr.load_mdpl2_data, ("cens", "drn"), zeros), "script:mdpl2" + tag)


def tng_physical(zeros):
    def sc(c):
        lg, a = masses(c, True, zeros)
        c.assume(lt(6.0, lg[0][-1]))
        t = times(c)
        tt, m = c.py(tng.load_tng_data, "drn", np_overrides=files(
            c, diffmah=dict(mpeakh=lf(c, a)), cosmic_time=lf(c, t)))
        m = arr_(m)
        for i, r in enumerate(peaks(lg, zeros)):
            for k, x in enumerate(r):
                c.check(f"mass{i}_{k}", eq(m[i, k], 0.0) if x is None else
                        And(lt(0.0, m[i, k]), eq(log10(m[i, k] * 0.6774), x)), tol=1e-9)
        c.check("times", same(tt, list(arr_(t))))
    return sc


for zeros in ((), (0,), (0, 1)):
    ck.paths(tng_physical(zeros), "tng" + (":zeros" + "".join(map(str, zeros)) if zeros else ""))


@ck.paths
def bolshoi_um(c):
    lg, a = masses(c, False, (0,))
    scale = c.vec("scale", NT, 0.01, 1)
    age = c.vec("age", NT, 0.1, 14)
    asked = []
    WORLD["um"] = lambda sub, drn, galprops: dict(halo_id="IDS", mpeak_history_main_prog=lf(c, a))
    WORLD["age"] = lambda z, *p: asked.append((z, p)) or lf(c, age)
    ids, m, tt, lgmin, lgt0 = c.py(bpl.load_bpl_mah_data, "drn", [0], np_overrides=files(c, scale_list=lf(c, scale)))
    lw = H.SN.lower if c.sym else (lambda x: x)
    m = arr_(m)
    for i, r in enumerate(peaks(lg, (0,))):
        for k, x in enumerate(r):
            c.check(f"mass{i}_{k}", eq(m[i, k], 1.0) if x is None else eq(log10(m[i, k]), x), tol=1e-9)
    z, p = asked[-1]
    c.check("redshift", And(*[eq((1 + arr_(lw(z))[k]) * arr_(scale)[k], 1.0) for k in range(NT)]), tol=1e-9)
    c.check("cosmology", TRUE if p == (0.307, -1.0, 0.0, 0.678) else FALSE)
    c.check("times", And(same(tt, list(arr_(age))), eq(pow10(lgt0), arr_(age)[-1])), tol=1e-9)
    c.check("ids", TRUE if ids == "IDS" else FALSE)


def hacc_world(c):
    lg, a = masses(c)
    h = c.real("h", 0.4, 1.0)
    om, w0, wa = c.real("om", 0.1, 0.5), c.real("w0", -2, 0), c.real("wa", -1, 1)
    age = c.vec("age", NT, 0.1, 14)
    zs = c.vec("z", NT, 0, 10)
    sim = SimpleNamespace(cosmo=SimpleNamespace(h=lf(c, h), Omega_m=lf(c, om), w0=lf(c, w0), wa=lf(c, wa)),
                          cosmotools_steps=[1, 2, 3], step2z=lambda s: lf(c, zs))
    asked = []
    WORLD["sim"] = lambda n: sim
    WORLD["hacc"] = lambda *r, **k: asked.append((r, k)) or {"infall_tree_node_mass": lf(c, a), "other": None}
    WORLD["age"] = lambda z, *p: asked.append((z, p)) or lf(c, age)
    return lg, h, (om, w0, wa, h), zs, age, asked


@ck.paths
def hacc_masses(c):
    lg, h, cosmo, zs, age, asked = hacc_world(c)
    tt, m = c.py(hacc.load_mahs, "fn", "sim", 3, 8)
    m = arr_(m)
    for i, r in enumerate(peaks(lg)):
        for k, x in enumerate(r):
            c.check(f"mass{i}_{k}", And(lt(0.0, m[i, k]), eq(log10(m[i, k] * h), x)), tol=1e-9)
    (a, kw), (z, p) = asked[-2:]
    lw = H.SN.lower if c.sym else (lambda x: x)
    c.check("chunk", TRUE if (kw.get("chunknum"), kw.get("nchunks"), a[:1]) == (3, 8, ("fn",)) else FALSE)
    c.check("cosmology", And(*[eq(lw(x), y) for x, y in zip(p, cosmo)]))
    c.check("redshifts", same(lw(z), list(arr_(zs))))
    c.check("times", same(tt, list(arr_(age))))


class Comm:
    """one rank of a communicator with in-order point-to-point messages"""

    def __init__(self, rank, size, mail, board):
        self.rank, self.size, self.mail, self.board = rank, size, mail, board

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, x, dest, tag=0):
        self.mail.setdefault((self.rank, dest), []).append(x)

    def recv(self, source=0, tag=0):
        return self.mail[(source, self.rank)].pop(0)

    def bcast(self, x, root=0):
        if self.rank == root:
            self.board.append(x)
        return self.board[-1]


def scatter(n, size):
    def sc(c):
        v = [c.real(f"row{k}", -100, 100) for k in range(n)]
        a = np.array([[x, 2 * x] for x in v], dtype=object if c.sym else float).reshape(n, 2)
        mail, got = {}, []
        for r in range(size):
            comm = Comm(r, size, mail, [])
            got.append(c.py(lambda: hacc._scatter_nd(lf(c, a) if r == 0 else None, axis=0, comm=comm, root=0)))
        lw = H.SN.lower if c.sym else (lambda x: x)
        rows = [arr_(lw(x)) for x in got]
        c.check("no_message_left", TRUE if not any(mail.values()) else FALSE)
        c.check("balanced", TRUE if max(map(len, rows)) - min(map(len, rows)) <= 1 else FALSE)
        flat = [x for r in rows for x in r]
        c.check("every_row_once_in_order", And(TRUE if len(flat) == n else FALSE, *[
            And(eq(x[0], y), eq(x[1], 2 * y)) for x, y in zip(flat, v)]))
    return sc


for size in range(1, 5):
    for n in (range(0, 7) if THOROUGH else (1, 3, 4, 6)):
        ck.paths(scatter(n, size), f"scatter{n}:ranks{size}")


@ck.paths
def hacc_per_rank(c):
    lg, h, cosmo, zs, age, asked = hacc_world(c)
    mail, board, rows = {}, [], []
    for r in range(2):
        comm = Comm(r, 2, mail, board)
        tt, m = c.py(hacc.load_mahs_per_rank, "fn", "sim", 3, 8, comm=comm)
        c.check(f"times{r}", same(tt, list(arr_(age))))
        rows += list(arr_(m))
    want = [x for r in peaks(lg) for x in r]
    got = [x for r in rows for x in r]
    c.check("all_halos", And(TRUE if len(got) == len(want) else FALSE, *[eq(log10(g * h), w) for g, w in zip(got, want)]),
            tol=1e-9)


COLS = ("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated")


def galacticus(rows):
    def sc(c, disk):
        n = 4
        v = {k: c.vec(k, n, 0, 100) for k in COLS}
        with disk.open("g.h5", "w") as f:
            for k in COLS:
                f["Outputs/Output1/nodeData/" + k] = lf(c, v[k])
        c.check("number_of_halos", eq(c.py(lambda: gal.get_nhalos_tot(disk.path("g.h5")), attrs=disk.attrs), n))
        kw = {}
        if "start" in rows:
            kw["istart"] = c.integer("first", 0, n)
        if "end" in rows:
            kw["iend"] = c.integer("last", 0, n)
        out = c.py(lambda **k: gal.extract_galacticus_mah_tables(disk.path("g.h5"), **k), attrs=disk.attrs, **kw)
        a, b = lf(c, kw.get("istart", 0)), lf(c, kw.get("iend", n))
        for k, x in zip(COLS, out):
            want = lf(c, v[k])[a:b]
            c.check(k, same(x, list(arr_(H.SN.lower(want) if c.sym else want))))
    return session(sc)


for rows in ("all", "start", "end") + (("start_end",) if THOROUGH else ()):
    ck.paths(galacticus(rows), "galacticus:" + rows)
ck.finish()
