from _fit import *
from diffmah import utils

ck = Check("P22", "Time-step widths tile the time axis with cell edges midway between samples",
           bounds="any increasing sequence of 2 to 6 times (up to 9 in the thorough tier) in [-100, 100]",
           outside="longer sequences",
           assumptions=["real arithmetic"])


def widths(n):
    def sc(c):
        t = [c.real(f"t{k}", -100, 100) for k in range(n)]
        for a, b in zip(t, t[1:]):
            c.assume(lt(a, b))
        dt = arr_(c.py(utils.get_dt_array, stack(*t)))
        c.check("one_per_time", TRUE if dt.shape == (n,) else FALSE)
        c.check("first", eq(dt[0], t[1] - t[0]), tol=1e-9)
        for k in range(1, n - 1):
            c.check(f"width{k}", eq(dt[k], (t[k + 1] - t[k - 1]) / 2), tol=1e-9)
        c.check("positive", And(*[lt(0.0, x) for x in dt]))
        c.check("last_covers_its_half_cell", lt((t[-1] - t[-2]) / 2, dt[-1]))
        c.check("last_extends_by_half_the_width_before_it", eq(dt[-1], (t[-1] - t[-2]) / 2 + dt[-2] / 2), tol=1e-9)
    return sc


def uniform(n):
    def sc(c):
        t0, h = c.real("t0", -100, 100), c.real("h", 1e-3, 10)
        dt = arr_(c.py(utils.get_dt_array, stack(*[t0 + k * h for k in range(n)])))
        c.check("step", And(*[eq(x, h) for x in dt]), tol=1e-9)
    return sc


def shift(n):
    def sc(c):
        """translation and change of unit"""
        t = [c.real(f"t{k}", -100, 100) for k in range(n)]
        for a, b in zip(t, t[1:]):
            c.assume(lt(a, b))
        s, u = c.real("s", -50, 50), c.real("u", 1e-2, 100)
        a = arr_(c.py(utils.get_dt_array, stack(*t)))
        b = arr_(c.py(utils.get_dt_array, stack(*[u * x + s for x in t])))
        c.check("covariant", And(*[eq(y, u * x) for x, y in zip(a, b)]), tol=1e-7)
    return sc


for n in range(2, 10 if THOROUGH else 7):
    ck.paths(widths(n), f"widths{n}")
    ck.paths(uniform(n), f"uniform{n}")
    ck.paths(shift(n), f"covariance{n}")
ck.finish()
