"""shared: the halo population model's parameters, symbolic inside their published ranges"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *  # noqa
from vlib import harness as H  # noqa
from diffmah import diffmah_kernels as dk  # noqa
from diffmah.diffmahpop_kernels import bimod_censat_params as dpp  # noqa
from diffmah.diffmahpop_kernels import mc_bimod_cens as mcc, mc_bimod_sats as mcs  # noqa
from _comps import Comp, dec  # noqa

COMPONENTS = ["t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats",
              "bimod_logm0_kernels.logm0_pop_bimod", "bimod_logm0_sats.logm0_pop_bimod_sats",
              "logtc_bimod", "early_index_bimod", "late_index_bimod", "frac_early_cens",
              "covariance_kernels"]
FIELDS = dpp.DiffmahPop_Params._fields
_B = None


def bounds():
    global _B
    if _B is None:
        _B = {}
        for n in COMPONENTS:
            k = Comp(n)
            _B.update({f: (float(b[0]), float(b[1])) for f, b in zip(k.fields, k.bounds)})
    return _B


def pop(c, free=None, prefix=""):
    """population parameters: symbolic in their published ranges for every field
    (or those in `free`), default value otherwise"""
    b = bounds()
    vals = []
    for f in FIELDS:
        if free is None or free(f):
            vals.append(c.real(prefix + f, *b[f]))
        else:
            vals.append(float(getattr(dpp.DEFAULT_DIFFMAHPOP_PARAMS, f)))
    return dpp.DiffmahPop_Params(*vals)


POP_BOUNDS = ("every population parameter anywhere in its published range; observed log10 mass in [10,15]; "
              "observation time in [1,15] Gyr; t0 in [10**0.5, 10**1.5] Gyr; one halo per draw")
