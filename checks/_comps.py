"""the bounded/unbounded parameter transforms of every population component"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib  # noqa
from vlib.harness import *  # noqa

P = "diffmah.diffmahpop_kernels."
MODULES = ["covariance_kernels", "early_index_alpha", "early_index_beta", "early_index_bimod", "early_index_pop",
           "frac_early_cens", "ftpt0_cens", "late_index_alpha", "late_index_beta", "late_index_bimod",
           "logtc_bimod", "logtc_early", "logtc_late",
           "bimod_logm0_kernels.logm0_c0_early", "bimod_logm0_kernels.logm0_c0_late",
           "bimod_logm0_kernels.logm0_c1_early", "bimod_logm0_kernels.logm0_c1_late",
           "bimod_logm0_kernels.logm0_pop_bimod", "bimod_logm0_kernels.logm0_pop_early",
           "bimod_logm0_kernels.logm0_pop_late",
           "bimod_logm0_sats.logm0_c0_early", "bimod_logm0_sats.logm0_c0_late",
           "bimod_logm0_sats.logm0_c1_early", "bimod_logm0_sats.logm0_c1_late",
           "bimod_logm0_sats.logm0_pop_bimod_sats", "bimod_logm0_sats.logm0_pop_early",
           "bimod_logm0_sats.logm0_pop_late",
           "t_peak_kernels.tp_pdf_cens", "t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats",
           "t_peak_kernels.utp_pdf_kernels"]


def _isnt(x):
    return isinstance(x, tuple) and hasattr(x, "_fields")


class Comp:
    def __init__(self, name):
        self.name = name
        m = self.m = importlib.import_module(P + name)
        gb = [k for k in dir(m) if k.startswith("get_bounded_") and k.endswith("_params")]
        gu = [k for k in dir(m) if k.startswith("get_unbounded_") and k.endswith("_params")]
        assert len(gb) == 1 and len(gu) == 1, (name, gb, gu)
        self.gb, self.gu = getattr(m, gb[0]), getattr(m, gu[0])
        bnds = [getattr(m, k) for k in dir(m) if _isnt(getattr(m, k)) and k != "MAH_PBOUNDS"
                and all(isinstance(b, tuple) and len(b) == 2 for b in getattr(m, k))]
        nts = [getattr(m, k) for k in dir(m) if k.startswith("DEFAULT_") and _isnt(getattr(m, k))]
        fields = {b._fields: b for b in bnds}
        assert len(fields) == 1, (name, fields.keys())
        (self.fields, self.bounds), = fields.items()
        self.defaults = [x for x in nts if x._fields == self.fields][0]
        self.u_fields = tuple("u_" + f for f in self.fields)
        self.udefaults = [x for x in nts if x._fields == self.u_fields][0]
        self.PT, self.UT = type(self.defaults), type(self.udefaults)


def components():
    return [Comp(n) for n in MODULES]


def dec(x):
    """exact rational meaning of a bound literal"""
    return FrF(X.lit(x))
