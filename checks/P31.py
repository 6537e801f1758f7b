import importlib.util
from _fakes import WORLD
from _fit import *  # noqa
from _batch import Batch, SN, h5py

DRN = os.path.join(REPO, "scripts", "diffmahpop_tabulation")
_spec = importlib.util.spec_from_file_location("diffmah.verif_smdpl_tabulation", os.path.join(DRN, "smdpl_diffmahpop_utils.py"))
tb = importlib.util.module_from_spec(_spec)
sys.modules[_spec.name] = tb
_spec.loader.exec_module(tb)

FIELDS = dk.DEFAULT_MAH_PARAMS._fields
RNG = dict(logm0=(10, 16), logtc=(-0.5, 0.9), early_index=(1, 5), late_index=(0.1, 1), t_peak=(1, 13))
CAP = 34            # halos of one bin kept per subvolume
ck = Check("P31", "Tabulated samples and targets hold exactly each bin's halos",
           bounds="1-2 subvolumes of 2-3 halos with any parameters, fit codes, host ids and masses at the observed times, 2 mass bins x 2 "
                  "times; 3 snapshots at any times; target tables of 1-3 halos x 3 times in 2 central and 2 satellite bins",
           outside="more halos, bins or subvolumes; the mass history model itself (P02, P04; any function here); files are "
                   "stand-ins; identical halos (zero scatter)",
           assumptions=["real arithmetic", "text keeps the 4 printed decimals",
                        "the simulation's last snapshot is at its tabulated age"])


def lf(c, x):
    return SN.lift(x) if c.sym else x


def lw(c, x):
    return SN.lower(x) if c.sym else x


def num(x):
    return float(x.const()) if isinstance(x, X.Poly) else float(x)


def halos(c, tag, n, nt, bad=()):
    p = {k: np.array([c.real(f"{tag}{k}{i}", *RNG[k]) for i in range(n)], dtype=object if c.sym else float) for k in FIELDS}
    sat = [[c.boolean(f"{tag}sat{i}_{k}") for k in range(nt)] for i in range(n)]
    up = np.empty((n, nt), dtype=object if c.sym else np.int64)
    for i, k in np.ndindex(n, nt):
        v = 2 ** 55 + i
        up[i, k] = SN.SR(X.ite(sat[i][k], X.const(v), X.const(-1))) if c.sym else (v if sat[i][k] else -1)
    loss = np.array([-1.0 if i in bad else c.real(f"{tag}loss{i}", 0, 1) for i in range(n)], dtype=object if c.sym else float)
    return p, sat, up, loss


def model(c, table, calls):
    """stands for the mass history of a population: any table of log masses"""
    def f(params, t, *a):
        calls.append((params, t, a))
        m = table(params, t)
        return None, m
    return f


def write_h5(c, b, fn, cols):
    with b.h5file(fn, "w") as f:
        for k, v in cols.items():
            f[k] = lf(c, v)


def goal_b(x):
    return G("b", x)


def subvolume(nh, bad, snaps):
    """halos selected by mass at the observed time, with the hosts of the nearest snapshot"""
    def sc(c):
        nt = 3
        p, sat, up, loss = halos(c, "h", nh, nt, bad)
        if snaps:
            tt = [c.real("snap0", 0.5, 13), c.real("snap1", 0.5, 13), 13.8]
            c.assume(lt(tt[0], tt[1]))
        else:
            tt = [2.1, 9.0, 13.8]
        lm = {(j, i): c.real(f"lm{j}_{i}", 9, 16) for j in range(2) for i in range(nh)}
        good = [i for i in range(nh) if i not in bad]
        calls = []

        def table(params, t):
            j = len(calls) - 1
            a = np.empty((len(good), 2), dtype=object if c.sym else float)
            for r, i in enumerate(good):
                a[r, 0], a[r, 1] = 5.0, lm[min(j, 1), i]
            return lf(c, a)
        with Batch(c, os.path.join(DRN, "measure_smdpl_diffmahpop.py")) as b:
            write_h5(c, b, os.path.join(b.dir, "subvol_007_diffmah_fits.h5"), dict(p, loss=loss))
            ask = []
            WORLD["um"] = lambda sub, drn, props: ask.append(list(sub)) or dict(halo_id=np.arange(nh), upid_history=lf(c, up))
            tarr = np.array(tt, dtype=object if c.sym else float)
            out = c.py(lambda: list(tb.generate_diffmahpop_targets_for_subvol(
                7, diffmah_drn=b.dir, sfhcat_drn="um", n_m=2, n_t=2)),
                np_overrides=dict(loadtxt=lambda fn, *a, **k: lf(c, tarr)),
                attrs=[(tb, "mah_halopop", model(c, table, calls)), (tb, "load_mock_from_binaries", lambda *a: WORLD["um"](*a))]
                + ([(h5py, "File", b.File)] if c.sym else []))
        c.check("subvolume_read", TRUE if ask == [[7]] else FALSE)
        c.check("times_evaluated", And(TRUE if len(calls) == 2 else FALSE, *[
            And(eq(arr_(lw(c, cl[1]))[-1], t), eq(lw(c, cl[2][-1]), log10(13.8))) for cl, t in zip(calls, (2.0, 13.8))]), tol=1e-9)
        for cl in calls:
            c.check("halos_evaluated", And(*[same(arr_(lw(c, getattr(cl[0], k))), [p[k][i] for i in good]) for k in FIELDS]))
        got = {}
        for lgm, t, mp, tp, ui in out:
            j = 0 if abs(float(t) - 2.0) < 1e-6 else 1
            edges = (11.0, 15 + 0.075 * ((2.0, 13.8)[j] - 15.0))
            m = [k for k in range(2) if abs(float(lgm) - edges[k]) < 1e-4]
            c.check("bin_labels", TRUE if len(m) == 1 and abs(float(t) - (2.0, 13.8)[j]) < 1e-6 else FALSE)
            got[j, m[0] if m else 0] = mp, tp, ui
        for j in range(2):
            d = [abs_(x - (2.0, 13.8)[j]) for x in tt]
            near = [And(*[lt(d[k], d[q]) if q < k else le(d[k], d[q]) for q in range(nt) if q != k]) for k in range(nt)]
            for q in range(2):
                lgm = (11.0, 15 + 0.075 * ((2.0, 13.8)[j] - 15.0))[q]
                inb = [within(lm[j, i], lgm - 0.15 + 1e-5, lgm + 0.15 - 1e-5) for i in good]
                out_ = [Or(le(lm[j, i], lgm - 0.15 - 1e-5), le(lgm + 0.15 + 1e-5, lm[j, i])) for i in good]
                name = f"bin{j}{q}"
                have = got.get((j, q))
                # the halos listed
                rows = []
                if have is not None:
                    mp, tp, ui = have
                    cols = {k: arr_(lw(c, getattr(mp, k))) for k in FIELDS}
                    n = len(arr_(lw(c, tp)))
                    rows = [({k: cols[k][r] if len(cols[k]) > r else None for k in FIELDS}, arr_(lw(c, tp))[r],
                             arr_(lw(c, ui))[r]) for r in range(n)]
                    c.check(f"{name}:columns", TRUE if all(len(v) == n for v in cols.values()) else FALSE)
                for bits in itertools.product((0, 1), repeat=len(good)):
                    sel = [i for i, x in zip(good, bits) if x]
                    cond = And(*[inb[r] if x else out_[r] for r, x in enumerate(bits)])
                    if len(rows) != len(sel):
                        c.check(f"{name}:members", Not(cond))
                        continue
                    for r, i in enumerate(sel):
                        v, tp, ui = rows[r]
                        c.check(f"{name}:members", Implies(cond, And(*[eq(v[k], p[k][i]) for k in FIELDS], eq(tp, p["t_peak"][i]))))
                        for k in range(nt):
                            isat = goal_b(sat[i][k]) if c.sym else (TRUE if sat[i][k] else FALSE)
                            c.check(f"{name}:hosts", Implies(And(cond, near[k]), Iff(isat, Not(eq(ui, -1)))))
    return sc


def abs_(x):
    return where(G("lt", x, 0.0), -x, x)


class Texts:
    """numpy's text and binary files: text as the script formats it, arrays as they are"""

    def __init__(self, c, b):
        self.c, self.b, self.arr = c, b, {}
        self.ov = dict(savetxt=self.savetxt, loadtxt=self.loadtxt, save=self.save, load=self.load) if c.sym else {}

    def savetxt(self, fn, a, fmt="%.18e", header="", **k):
        with open(fn, "w") as f:
            f.write("# " + header + "\n")
            for r in a:
                f.write(" ".join(format(x, fmt[1:]) for x in r) + "\n")

    def loadtxt(self, fn, *a, **k):
        if "cosmic_time" in str(fn):
            return np.array([2.0, tb.T0_SMDPL])
        with open(fn) as f:
            rows = [[SN.symfloat(x) for x in ln.split()] for ln in f if not ln.startswith("#")]
        r = SN.SA.of(np.array(rows, dtype=object))
        return r[0] if len(rows) == 1 else r

    def save(self, fn, a, **k):
        fn = str(fn) if str(fn).endswith(".npy") else str(fn) + ".npy"
        open(fn, "w").close()
        self.arr[os.path.realpath(fn)] = a

    def load(self, fn, **k):
        if not os.path.exists(fn):
            raise FileNotFoundError(fn)
        return self.arr[os.path.realpath(fn)]


def get_npy(c, b, tx, fn):
    fn = os.path.join(b.out, fn)
    return arr_(lw(c, tx.load(fn))) if c.sym else np.load(fn)


def printed(a, b):
    return within(a - b, -5.1e-5, 5.1e-5)


def loop(nh, first=0, fixed=0):
    """the whole tabulation of two subvolumes: sample files per bin, temporary files gone

    fixed: this many halos of the first subvolume come before the free ones and are centrals in every bin"""
    t0 = tb.T0_SMDPL
    T = (2.0, t0)
    M = [(11.0, 15 + 0.075 * (t - 15.0)) for t in T]

    def sc(c):
        H_ = {s: halos(c, f"s{s}", nh, 2) for s in (first, first + 1)}
        which = {(s, j, i): c.boolean(f"in{s}_{j}_{i}") for s in H_ for j in range(2) for i in range(nh)}
        if fixed:
            p, sat, up, loss = H_[first]
            vals = {k: [round(RNG[k][0] + (RNG[k][1] - RNG[k][0]) * (i + 1) / (fixed + 1), 3) for i in range(fixed)] for k in FIELDS}
            ext = lambda u, v: np.concatenate([np.array(u, dtype=v.dtype), v])
            H_[first] = ({k: ext(vals[k], p[k]) for k in FIELDS}, [[False, False]] * fixed + sat,
                         ext([[-1, -1]] * fixed, up), ext([0.5] * fixed, loss))
            for j in range(2):
                old = [which[first, j, i] for i in range(nh)]
                which.update({(first, j, i): True if i < fixed else old[i - fixed] for i in range(fixed + nh)})
        nh_ = {s: len(H_[s][3]) for s in H_}
        with Batch(c, os.path.join(DRN, "measure_smdpl_diffmahpop.py"), modules={"smdpl_diffmahpop_utils": tb}) as b:
            tx = Texts(c, b)
            b.ov.update(tx.ov)
            if not c.sym:
                np.savetxt(os.path.join(b.dir, "smdpl_cosmic_time.txt"), np.array([2.0, t0]))
            for s in H_:
                write_h5(c, b, os.path.join(b.dir, f"subvol_{s:03d}_diffmah_fits.h5"), dict(H_[s][0], loss=H_[s][3]))
            WORLD["um"] = lambda sub, drn, props: dict(halo_id=np.arange(nh_[sub[0]]), upid_history=lf(c, H_[sub[0]][2]))
            calls = []

            def table(params, t):
                """every halo is in the first mass bin of this time, or in none"""
                s, j = divmod(len(calls) - 1, 2)
                n = nh_[first + s]
                a = np.empty((n, 2), dtype=object if c.sym else float)
                for i in range(n):
                    w = which[first + s, j, i]
                    a[i, 0] = 5.0
                    a[i, 1] = (11.0 if w else 9.0) if isinstance(w, bool) or not c.sym else SN.SR(X.ite(w, X.const(11), X.const(9)))
                return SN.SA.of(a) if c.sym else a
            keep = os.path.join(b.out, "other.txt")
            open(keep, "w").close()
            ok = b.run([b.out, "-istart", str(first), "-iend", str(first + 2), "-diffmah_drn", b.dir, "-sfhcat_drn", b.dir, "-n_m", "2",
                        "-n_t", "2"], attrs=[(tb, "mah_halopop", model(c, table, calls)),
                                             (tb, "load_mock_from_binaries", lambda *a: WORLD["um"](*a))])
            c.check("finishes", TRUE if ok else FALSE)
            sub = f"NM_2_NT_2_ISTART_{first}_IEND_{first + 2}"
            c.check("files_left", TRUE if sorted(os.listdir(b.out)) == sorted([sub, "other.txt"]) and not b.escapes else FALSE)
            have = set(os.listdir(os.path.join(b.out, sub))) if sub in os.listdir(b.out) else set()
            names = set()
            for j, t in enumerate(T):
                for kind in ("cens", "sats"):
                    fn = f"lgm_11.00_t_{t:.2f}_mah_params.{kind}.npy"
                    names.add(fn)
                    rows = get_npy(c, b, tx, os.path.join(sub, fn)) if fn in have else np.zeros((0, 6))
                    c.check(f"{fn}:not_empty", TRUE if fn not in have or len(rows) else FALSE)
                    pre = [(first, i) for i in range(fixed)] if kind == "cens" else []
                    allh = [(s, i) for s in H_ for i in range(fixed if s == first else 0, nh_[s])]
                    mem = {}
                    for s, i in allh:
                        w, st = which[s, j, i], H_[s][1][i][j]
                        gb = lambda x: goal_b(x) if c.sym else (TRUE if x else FALSE)
                        mem[s, i] = And(gb(w), gb(st) if kind == "sats" else Not(gb(st)))
                    for bits in itertools.product((0, 1), repeat=len(allh)):
                        sel = pre + [h for h, x in zip(allh, bits) if x]
                        sel = [h for s in H_ for h in [h for h in sel if h[0] == s][:CAP]]
                        cond = And(*[mem[h] if x else Not(mem[h]) for h, x in zip(allh, bits)])
                        if len(sel) != len(rows):
                            c.check(f"{fn}:members", Not(cond))
                            continue
                        if not sel:
                            continue
                        # any order of subvolumes, halos of one in order
                        alts = []
                        for od in ([first, first + 1], [first + 1, first]):
                            perm = sorted(sel, key=lambda h: (od.index(h[0]), h[1]))
                            alts.append(And(*[printed(rows[r][q], H_[s][0][k][i]) for r, (s, i) in enumerate(perm)
                                              for q, k in enumerate((*FIELDS, "t_peak"))]))
                        c.check(f"{fn}:members", Implies(cond, Or(*alts)))
            c.check("no_other_files", TRUE if have <= names else FALSE)
    return sc


def targets(sizes, rescale):
    """mean, scatter and peaked fraction of each file's halos, labelled with its own mass and time"""
    files = {"cens": [("12.50", "3.20"), ("11.25", "13.80")], "sats": [("11.00", "2.00"), ("13.75", "6.40")]}

    def sc(c):
        nt = 3
        data, lms, byname = {}, {}, {}
        for kind in files:
            for q, (lg, t) in enumerate(files[kind]):
                n = sizes[kind][q]
                data[kind, q] = np.array([[c.real(f"{kind}{q}{k}{i}", *RNG[k]) for k in FIELDS] +
                                          [0.0] for i in range(n)], dtype=object if c.sym else float)
                data[kind, q][:, 5] = data[kind, q][:, 4]
                lms[kind, q] = [[c.real(f"lm{kind}{q}_{i}_{k}", 8, 16) for k in range(nt)] for i in range(n)]
        order = []
        with Batch(c, "x") as b:
            for kind in files:
                for q, (lg, t) in enumerate(files[kind]):
                    fn = os.path.join(b.out, f"lgm_{lg}_t_{t}_mah_params.{kind}.npy")
                    open(fn, "w").close()
                    byname[os.path.basename(fn)] = kind, q

            def load(fn, **k):
                order.append(byname[os.path.basename(fn)])
                return lf(c, data[order[-1]])
            calls = []

            def table(params, t):
                a = np.array(lms[order[-1]], dtype=object if c.sym else float)
                calls.append(order[-1])
                return lf(c, a)
            asked = []
            out = c.py(lambda: tb.tabulate_target_means_vars(b.out, nh_min=1, n_t_target=nt, rescale=rescale),
                       np_overrides=dict(load=load), attrs=[(tb, "mah_halopop", model(c, table, asked))])
        asked_of = dict(zip(calls, asked))
        for kind, d in zip(("cens", "sats"), out):
            d = {k: arr_(lw(c, v)) for k, v in d.items()}
            want = [q for q in range(2) if sizes[kind][q] > 1]
            c.check(f"{kind}:rows", TRUE if all(len(v) == len(want) for v in d.values()) and len(d) == 6 else FALSE)
            seen = []
            for r in range(min(len(v) for v in d.values())):
                m = [q for q in want if abs(num(d["lgm_obs"][r]) - float(files[kind][q][0])) < 1e-6]
                if len(m) != 1 or m[0] in seen:
                    c.check(f"{kind}:labels", FALSE)
                    continue
                q = m[0]
                seen.append(q)
                t = float(files[kind][q][1])
                tt = np.linspace(0.5, t, nt)
                c.check(f"{kind}{q}:times", And(eq(d["t_obs"][r], t), *[within(d["t_table"][r][k] - tt[k], -1e-9, 1e-9) for k in range(nt)]))
                lm, n = lms[kind, q], sizes[kind][q]
                lg = float(files[kind][q][0])
                v = [[x[k] - x[-1] + lg if rescale else x[k] for k in range(nt)] for x in lm]
                for k in range(nt):
                    mu = sum(x[k] for x in v) / n
                    var = sum((x[k] - mu) * (x[k] - mu) for x in v) / n
                    c.check(f"{kind}{q}:mean{k}", eq(d["mean_log_mah"][r][k], mu), tol=1e-9)
                    s = d["std_log_mah"][r][k]
                    if k < nt - 1 or not rescale:
                        c.check(f"{kind}{q}:scatter{k}", And(le(0.0, s), eq(s * s, var)), tol=1e-7)
                    else:
                        c.check(f"{kind}{q}:scatter{k}", within(s, -1e-7, 1e-7), tol=1e-7)
                    fp = sum(where(G("lt", data[kind, q][i, 4], tt[k]), 1.0, 0.0) for i in range(n)) / n
                    c.check(f"{kind}{q}:peaked{k}", eq(d["frac_peaked"][r][k], fp), tol=1e-9)
                if (kind, q) not in asked_of:
                    c.check(f"{kind}{q}:evaluated", FALSE)
                    continue
                ps, tq, rest = asked_of[kind, q]
                c.check(f"{kind}{q}:evaluated", And(
                    *[same(arr_(lw(c, getattr(ps, k))), list(data[kind, q][:, j])) for j, k in enumerate(FIELDS)],
                    *[within(x - y, -1e-9, 1e-9) for x, y in zip(arr_(lw(c, tq)), tt)],
                    within(rest[-1] - float(np.log10(tb.T0_SMDPL)), -1e-9, 1e-9)))
    return sc


def written(c):
    """the target files hold each class's own targets"""
    n, nt = {"cens": 101, "sats": 102}, 25
    data = {k: np.array([[*(RNG[q][0] + (RNG[q][1] - RNG[q][0]) * ((7 * i + 3) % 11) / 11 for q in FIELDS), 1.0 + i % 9] for i in range(m)])
            for k, m in n.items()}
    free = {k: c.real(f"lm{k}", 8, 16) for k in n}
    order, calls = [], []

    def load(fn, **k):
        order.append("cens" if "cens" in os.path.basename(fn) else "sats")
        return SN.SA.of(data[order[-1]]) if c.sym else data[order[-1]]

    def table(params, t):
        k = order[-1]
        a = np.array([[9.0 + (i * 3 + q) % 17 / 4 for q in range(nt)] for i in range(n[k])], dtype=object if c.sym else float)
        a[5, 3] = free[k]
        return lf(c, a)
    kw = dict(np_overrides=dict(load=load), attrs=[(tb, "mah_halopop", model(c, table, calls))])
    with Batch(c, "x") as b:
        for kind in n:
            open(os.path.join(b.out, f"lgm_12.50_t_9.00_mah_params.{kind}.npy"), "w").close()
        tab = c.py(lambda: tb.tabulate_target_means_vars(b.out), **kw)
        fns = [os.path.join(b.dir, f"mu_var_{kind}.h5") for kind in n]
        kw["attrs"] = kw["attrs"] + ([(h5py, "File", b.File)] if c.sym else [])
        c.py(lambda: tb.write_mean_variance_to_disk(b.out, *fns), **kw)
        for fn, d in zip(fns, tab):
            with b.h5file(fn, "r") as f:
                got = {k: np.asarray(arr_(lw(c, f[k][...]))) for k in f.keys()}
            nm = os.path.basename(fn)
            c.check(f"{nm}:columns", TRUE if sorted(got) == sorted(d) and len(d) == 6 else FALSE)
            for k in d:
                want = arr_(lw(c, d[k])).ravel()
                c.check(f"{nm}:{k}", same(got.get(k, np.zeros(0)).ravel(), want) if want.size else FALSE)


if __name__ == "__main__":
    ck.paths(subvolume(2, (), False), "subvolume")
    ck.paths(subvolume(2, (0,), True), "subvolume:bad_fit_and_snapshots")
    ck.paths(loop(1), "loop")
    ck.paths(loop(1, first=9, fixed=34), "loop:cap")
    ck.paths(targets(dict(cens=(2, 3), sats=(1, 2)), True), "targets")
    ck.paths(targets(dict(cens=(2, 1), sats=(2, 2)), False), "targets:not_rescaled")
    ck.paths(written, "written")
    ck.finish()
