"""shared: symbolic single-halo parameters in their documented ranges"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *  # noqa
from vlib import harness as H  # noqa
from diffmah import diffmah_kernels as dk  # noqa

RNG = dict(logm0=(0.0, 17.0), logtc=(-1.0, 1.0), early_index=(0.1, 10.0),
           late_index=(0.1, 5.0))
LTP = (-1.3010299956639813, 1.3010299956639813)     # t_peak in [0.05, 20] Gyr
HALO_BOUNDS = ("every real logm0 in [0,17], logtc in [-1,1], 0.1<=late<=early<=10 (late<=5), "
               "t_peak in [0.05,20] Gyr, t0 in [10**0.5, 10**1.5] Gyr, times in [0.01, 31] Gyr")


def halo(c, suffix="", ordered=True):
    v = [c.real(k + suffix, *RNG[k]) for k in RNG]
    tp, x = c.time("t_peak" + suffix, *LTP)
    p = dk.DiffmahParams(*v, tp)
    if ordered:
        c.assume(le(p.late_index, p.early_index))
    return p, x


def lgt0(c):
    return c.real("lgt0", 0.5, 1.5)


def oracle_alpha(p, x):
    """rolling index at log10(t)=x, from the published definition"""
    return p.early_index + (p.late_index - p.early_index) * logistic((x - p.logtc) * H.fr("3.5"))


def oracle_lgm(p, x, lt0):
    return p.logm0 + oracle_alpha(p, x) * (x - lt0)


def oracle_rate(p, x, lt0):
    """d/dt 10**lgm in Msun/yr at t=10**x Gyr"""
    s = logistic((x - p.logtc) * H.fr("3.5"))
    dalpha = (p.late_index - p.early_index) * H.fr("3.5") * s * (1 - s)
    return pow10(oracle_lgm(p, x, lt0)) / pow10(x) * (oracle_alpha(p, x) + dalpha * (x - lt0)) * H.fr("1e-9")
