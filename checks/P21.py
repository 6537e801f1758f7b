from _fit import *
from _h5 import session
from diffmah.data_loaders import io_utils as iou
from diffmah.data_loaders import load_flat_hdf5

NR = 5 if THOROUGH else 3
ck = Check("P21", "Tables are loaded with exactly the requested columns and rows",
           bounds=f"files of 3 columns x {NR} rows (one of them two-dimensional) with any contents, at the top level, in a "
                  f"group and in a nested group; every start and end row in -{NR}..{NR} (negative: counted from the end) or none",
           outside="larger files; string columns; lists of columns other than the three tried",
           assumptions=["h5py is replaced by an in-memory stand-in in the symbolic run, real files on replay"])
COLS = ("logm0", "t_peak", "mah")


def table(c, disk, groups):
    """the same-named columns, with different contents, in each group"""
    out = {}
    with disk.open("t.h5", "w") as f:
        for g in groups:
            cols = {}
            for n in COLS:
                v = [c.real(f"{g}:{n}{i}", -50, 50) for i in range(NR * (2 if n == "mah" else 1))]
                v = np.array([H.SN.SR(x) for x in v], dtype=object).view(H.SN.SA) if c.sym else np.array(v)
                cols[n] = v.reshape(NR, 2) if n == "mah" else v
                f[(g + "/" if g else "") + n] = cols[n]
            out[g] = cols
    return out


def equal(c, name, got, want):
    lw = H.SN.lower if c.sym else (lambda x: x)
    if got is None or np.shape(got) != np.shape(want):
        c.check(name, FALSE)
        return
    a, b = [arr_(lw(x)) for x in (got, want)]
    c.check(name, And(*[eq(x, y) for x, y in zip(a.flat, b.flat)]))


def load(groups, dataset, keys, rows):
    def sc(c, disk):
        t = table(c, disk, groups)[dataset or ""]
        want = COLS if keys is None else keys
        kw = {} if keys is None else dict(keys=list(keys))
        if dataset is not None:
            kw["dataset"] = dataset
        a = b = None
        if "start" in rows:
            kw["istart"] = a = c.integer("first", -NR, NR)
        if "end" in rows:
            kw["iend"] = b = c.integer("last", -NR, NR)
        d = c.py(lambda **k: load_flat_hdf5(disk.path("t.h5"), **k), attrs=disk.attrs, **kw)
        lf = H.SN.lift if c.sym else (lambda x: x)
        c.check("columns", TRUE if set(d) == set(want) else FALSE)
        sl = slice(None if a is None else lf(a), None if b is None else lf(b))
        for n in want:
            w = t[n][sl]
            equal(c, n, lf(d[n]) if c.sym and n in d else d.get(n), w)
    return session(sc)


for name, groups, ds in (("flat", ("",), None), ("group", ("halos",), "halos"), ("two_groups", ("halos", "subs"), "subs"),
                         ("nested", ("sim/halos", "sim/subs"), "sim/halos")):
    for rows in ("all", "start", "end") + (("start_end",) if THOROUGH or name == "nested" else ()):
        ck.paths(load(groups, ds, None, rows), f"{name}:{rows}")
    ck.paths(load(groups, ds, ("t_peak",), "start_end" if THOROUGH or name == "flat" else "start"), name + ":one_column")
    ck.paths(load(groups, ds, ("mah", "logm0"), "start_end" if THOROUGH else "end"), name + ":reordered")
ck.finish()
