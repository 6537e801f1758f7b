"""oracle: scatter one halo around its class mean"""
from _popmodel import *
from diffmah.diffmahpop_kernels.covariance_kernels import _get_diffmahpop_cov


def chol(c, cov):
    """lower Cholesky factor"""
    if not c.sym:
        return np.linalg.cholesky(np.asarray(cov, dtype=float))
    ent = tuple((cov[r, k] + cov[k, r]) * H.fr("0.5") for r in range(4) for k in range(r + 1))
    L = np.full((4, 4), X.ZERO, dtype=object)
    for r in range(4):
        for k in range(r + 1):
            L[r, k] = X.uf(f"chol4_{r}{k}", *ent, pos=(r == k))
    return L


def realize(c, p, cls, kind, lgm, t_obs, tp, z):
    """the class's mean parameters, scattered in unbounded space, mapped back"""
    m = dk.DiffmahParams(o_logm0(p, cls, kind, lgm, t_obs, tp), o_logtc(p, cls, lgm, t_obs, tp),
                         o_early(p, cls, lgm, t_obs, tp), o_late(p, cls, lgm), tp)
    c.assume(within(m.logm0, 1, 16.9))
    um = c.call(dk.get_unbounded_mah_params, m)
    L = chol(c, c.call(_get_diffmahpop_cov, p, lgm))
    u = dk.DiffmahUParams(*[um[i] + sum(L[i, j] * z[j] for j in range(i + 1)) for i in range(4)], um[4])
    return c.call(dk.get_bounded_mah_params, u)
