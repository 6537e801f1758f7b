"""oracles: the published population model, one halo at a time"""
from _pop import *

KINDS = ("cens", "sats")
fr = H.fr


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi)


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (x - xtp)


def g(p, name):
    return getattr(p, name)


def o_logm0(p, cls, kind, lgm, t_obs, tp):
    s = cls + ("_sats" if kind == "sats" else "")
    c0 = sig_slope(t_obs, 15, g(p, f"lgm0pop_c0_ytp_{s}"), g(p, f"lgm0pop_c0_t_obs_x0_{s}"), fr("0.25"),
                   g(p, f"lgm0pop_c0_ylo_{s}"), 0)
    c0 = maximum(c0, g(p, f"lgm0pop_c0_clip_c0_{s}") + g(p, f"lgm0pop_c0_clip_c1_{s}") * tp)
    c1 = sig_slope(t_obs, 10, g(p, f"lgm0pop_c1_ytp_{s}"), g(p, f"lgm0pop_c1_t_obs_x0_{s}"), fr("0.25"),
                   g(p, f"lgm0pop_c1_ylo_{s}"), 0)
    c1 = maximum(c1, sigmoid(tp, g(p, f"lgm0pop_c1_clip_x0_{s}"), 1, g(p, f"lgm0pop_c1_clip_ylo_{s}"),
                             g(p, f"lgm0pop_c1_clip_yhi_{s}")))
    return lgm + c0 + c1 * (lgm - 12)


def o_logtc(p, cls, lgm, t_obs, tp):
    ytp = g(p, f"logtc_lgm_c0_tp_ytp_tobs_c0_{cls}") + g(p, f"logtc_lgm_c0_tp_ytp_tobs_c1_{cls}") * t_obs
    c0 = sig_slope(tp, 10, ytp, g(p, f"logtc_c0_ss_x0_{cls}"), fr("0.5"), g(p, f"logtc_lgm_c0_tp_ylo_{cls}"),
                   g(p, f"logtc_lgm_c0_tp_yhi_{cls}"))
    return clip(c0 + g(p, f"logtc_lgm_c1_{cls}") * (lgm - 12), fr("-0.999") * one(lgm), fr("0.999") * one(lgm))


def one(x):
    return X.ONE if isinstance(x, Poly) else 1.0


def o_early(p, cls, lgm, t_obs, tp):
    s = {"early": "alpha", "late": "beta"}[cls]
    ylo = sigmoid(tp, g(p, f"early_index_ylo_x0_{s}"), 1, g(p, f"early_index_ylo_ylo_{s}"),
                  g(p, f"early_index_ylo_yhi_{s}"))
    yhi = sigmoid(t_obs, g(p, f"early_index_yhi_x0_{s}"), fr("0.5"), g(p, f"early_index_yhi_ylo_{s}"),
                  g(p, f"early_index_yhi_yhi_{s}"))
    return sigmoid(lgm, g(p, f"early_index_lgm_x0_{s}"), 1, ylo, yhi)


def o_late(p, cls, lgm):
    s = {"early": "alpha", "late": "beta"}[cls]
    return maximum(sigmoid(lgm, g(p, f"late_index_x0_{s}"), 1, g(p, f"late_index_ylo_{s}"),
                           g(p, f"late_index_yhi_{s}")), fr("0.101") * one(lgm))


def o_frac(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p.fec_t_obs_x0, 1, p.fec_lgm_ylo_early, p.fec_lgm_ylo_late)
    yhi = sigmoid(t_obs, p.fec_t_obs_x0, 1, p.fec_lgm_yhi_early, p.fec_lgm_yhi_late)
    return sigmoid(lgm, p.fec_lgm_x0, 4, ylo, yhi)


def o_loc(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p.utp_loc_lgm_ylo_t0, fr("0.4"), p.utp_loc_lgm_ylo_early, p.utp_loc_lgm_ylo_late)
    return sigmoid(lgm, p.utp_loc_lgm_x0, fr("1.5"), ylo, fr("0.95"))


def o_scale(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p.utp_scale_lgm_ylo_t0, 1, p.utp_scale_lgm_ylo_early, p.utp_scale_lgm_ylo_late)
    return sigmoid(lgm, 12, 1, ylo, fr("0.16"))


def o_std(p, name, lgm):
    return sigmoid(lgm, g(p, f"cov_lgm_x0_{name}"), 2, g(p, f"std_u_{name}_ylo"), g(p, f"std_u_{name}_yhi"))


def obs(c, s=""):
    return c.real("lgm_obs" + s, 10, 15), c.real("t_obs" + s, 1, 15)


def quot(a, b):
    return X.div(a, b) if isinstance(a, Poly) or isinstance(b, Poly) else a / b
