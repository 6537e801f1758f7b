from _popmodel import *
import z3
from functools import partial
from vlib.harness import _arr
from diffmah.diffmahpop_kernels import bimod_cens_fithelp as bc, bimod_sats_fithelp as bs, bimod_censat_fithelp as bcs
from diffmah.diffmahpop_kernels.t_peak_kernels import (tp_pdf_cens as tpc0, tp_pdf_cens_flex as tpc, tp_pdf_sats as tps,
                                                       utp_pdf_kernels as utpk)

ck = Check("P13", "Every random quantity of every halo comes from its own random stream",
           bounds="every root key; populations and samples of up to 5 halos (3 in the quick run), two bins for the "
                  "losses at the shipped 200 halos per bin and class",
           outside="quality of the generator itself; larger populations",
           assumptions=["splitting a key is injective: children with different indices or different parents are "
                        "independent, and a parent is independent of its children only if it is not consumed itself",
                        "the numbers other than keys do not influence which keys are used (the traced program has no "
                        "data-dependent key)"])
Node = z3.Datatype("Key")
Node.declare("root", ("name", z3.IntSort()))
Node.declare("child", ("parent", Node), ("how", z3.IntSort()), ("index", z3.IntSort()))
Node = Node.create()
_HOW = {"s": 0, "f": 0}        # JAX: split(k)[i] and fold_in(k, i) give the same key


def term(k, root):
    t = root
    for p in k.path[1:]:
        ix = 0
        for x in p[1:]:
            ix = ix * 100003 + int(float(x))
        t = Node.child(t, _HOW[p[0]], ix)
    return t


class Light(jx.Interp):
    """keys symbolic, every other quantity concrete"""

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            return jnp.asarray(v.val) if isinstance(v, jx.Literal) else env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            for v, o in zip(eqn.outvars, self.eqn(eqn, ins)):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def sub(self, j, args):
        return self.run(j.jaxpr, j.consts, args) if hasattr(j, "consts") else self.run(j, [], args)

    def eqn(self, eqn, ins):
        if any(jx.is_obj(a) for a in ins):
            return super().eqn(eqn, [a if jx.is_obj(a) else np.asarray(a) for a in ins])
        return jx.bind(eqn, [jnp.asarray(a) if not jx._iskeyarr(a) else a for a in ins])


def streams(f, *args, **kw):
    """the random streams a call consumes: (kind, key, shape), with every other quantity concrete"""
    recs = []

    def rec(kind, val):
        def stub(interp, eqn, a):
            av = eqn.outvars[0].aval
            key = a[0] if isinstance(a[0], np.ndarray) else _arr0(a[0])
            for ix in np.ndindex(key.shape):
                recs.append((kind, key[ix], av.shape[key.ndim:]))
            if kind == "U":
                lo, hi = np.asarray(a[1], float), np.asarray(a[2], float)
                return [jnp.full(av.shape, lo + (hi - lo) * val, av.dtype)]
            return [jnp.full(av.shape, val, av.dtype)]
        return stub
    leaves, tree = jax.tree_util.tree_flatten((args, kw), is_leaf=jx._isleaf)
    avals = [jx._aval(v) for v in leaves]

    def flat(*ls):
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        return jax.tree_util.tree_leaves(f(*a, **k))
    j = jax.make_jaxpr(flat)(*avals)
    Light({"_uniform": rec("U", 0.5), "_normal": rec("Z", 0.0)}).run(
        j.jaxpr, j.consts, [_arr0(v) if isinstance(v, jx.Key) else jnp.asarray(v) for v in leaves])
    return recs


def _arr0(k):
    r = np.empty((), dtype=object)
    r[()] = k
    return r


def real_keys(f, *args, **kw):
    """the same call on the real code: the raw key consumed by every draw, in order"""
    out = []

    class Rec(H.ConInterp):
        def draw(self, e, ins, name):
            k = ins[0]
            d = np.asarray(jax.random.key_data(k))
            for ix in np.ndindex(k.shape):
                out.append(tuple(int(v) for v in d[ix]))
            av = e.outvars[0].aval
            return jnp.full(av.shape, 0.5 if name == "_uniform" else 0.0, av.dtype)
    real = [jax.random.key(0) if isinstance(a, jx.Key) else a for a in args]
    leaves, tree = jax.tree_util.tree_flatten((tuple(real), kw))
    j = jax.make_jaxpr(lambda *ls: jax.tree_util.tree_leaves(f(*jax.tree_util.tree_unflatten(tree, ls)[0],
                                                             **jax.tree_util.tree_unflatten(tree, ls)[1])))(*leaves)
    Rec([], {}).run(j.jaxpr, j.consts, [jnp.asarray(v) if not jx._iskeyarr(v) else v for v in leaves])
    return out


def check(name, want, f, *args, **kw):
    if ck.only and not name.startswith(ck.only):
        return
    try:
        _check(name, want, f, *args, **kw)
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        ck.errors.append(f"{name}: {type(e).__name__}: {e}")
        ck.results.append((name, "inconclusive", ""))


def _check(name, want, f, *args, **kw):
    recs = streams(f, *args, **kw)
    ck.functions.append(getattr(f, "__name__", str(f)))
    root = z3.Const("root", Node)
    uniq = {}
    for i, r in enumerate(recs):
        uniq.setdefault((r[0], r[1], tuple(r[2])), i)
    items = list(uniq.items())
    # a common-ancestor table: two draws collide only if their terms, or one and a
    # prefix of the other, are equal for some root
    by = {}
    for (kind, key, sh), i in items:
        for n in range(1, len(key.path) + 1):
            by.setdefault(jx.Key(*key.path[:n]), []).append((n == len(key.path), kind, sh, i))
    pairs = []
    for key, us in by.items():
        full = [u for u in us if u[0]]
        if full and len(us) > 1:
            pairs.append((full[0], [u for u in us if u is not full[0]][0], key))
    # solver verdict: all consumed terms and their strict prefixes are pairwise different for every root
    terms = [term(k[1], root) for k, _ in items]
    pref = []
    seen = set()
    for k, _ in items:
        for n in range(1, len(k[1].path)):
            q = jx.Key(*k[1].path[:n])
            if q not in seen:
                seen.add(q)
                pref.append(term(q, root))
    # equality of two terms of the tree is decided by the datatype theory
    num = z3.Function("num", Node, z3.IntSort())
    cons = [num(t) == i for i, t in enumerate(terms)] + [num(t) == -1 for t in pref]
    res, _ = _z3(cons)
    ok = res == "sat"
    if ok != (not pairs):
        raise RuntimeError(f"key encoding disagrees: {res} {pairs[:2]}")
    text = ""
    if not ok:
        (a, b, key) = pairs[0]
        ks = real_keys(f, *args, **kw)
        i, j = a[3], b[3]
        same = len(ks) == len(recs) and (ks[i] == ks[j] or len(recs[i][1].path) != len(recs[j][1].path))
        if not same:
            raise RuntimeError("key collision not reproduced")
        text = (f"draw {i} ({recs[i][0]} {recs[i][2]}) and draw {j} ({recs[j][0]} {recs[j][2]}) consume the same key "
                f"or its descendant {key}: raw {ks[i]} / {ks[j]}")
    ck.obligation(f"{name}/own_streams", ok, {"key": 0}, text, name, f"{len(items)} streams")
    tot = {"U": 0, "Z": 0}
    for (kind, key, sh), _ in items:
        tot[kind] += int(np.prod(sh)) if sh else 1
    if want is not None:
        good = (tot["U"], tot["Z"]) == want
        text = ""
        if not good:
            ks = real_keys(f, *args, **kw)
            real = len({(k, r[0], tuple(r[2])) for k, r in zip(ks, recs)})
            if real != len(items):
                raise RuntimeError("stream count not reproduced")
            text = (f"{tot['U']} distinct uniform and {tot['Z']} distinct normal numbers are drawn, the halos need "
                    f"{want[0]} and {want[1]}")
        ck.obligation(f"{name}/own_numbers", good, {"key": 0}, text, name)


def _z3(cons):
    import time
    s = z3.Solver()
    s.set("timeout", 60000)
    t = time.time()
    s.add(*cons)
    r = str(s.check())
    smt.STATS.queries += 1
    smt.STATS.time += time.time() - t
    smt.STATS.by["datatype"] = smt.STATS.by.get("datatype", 0) + 1
    setattr(smt.STATS, r, getattr(smt.STATS, r) + 1)
    return r, None


P = dpp.DEFAULT_DIFFMAHPOP_PARAMS
T = np.array([2.0, 8.0], dtype=np.float32)
LG = np.float32(1.14)
K = jx.Key("k")


def arr(lo, hi, n):
    return np.linspace(lo, hi, n).astype(np.float32)


for kind, single, pop_, hist, m in (("cens", mcc.mc_diffmah_params_singlecen, mcc.mc_diffmah_cenpop, mcc.mc_cenpop, mcc),
                                    ("sats", mcs.mc_diffmah_params_singlesat, mcs.mc_diffmah_satpop, mcs.mc_satpop, mcs)):
    one = np.float32(12.0), np.float32(8.0)
    check(f"{kind}:single", (1, 8), single, P, *one, K, LG)
    check(f"{kind}:single_t_peak", (0, 8), single, P, *one, K, LG, np.float32(5.0))
    for n in (3,) if not THOROUGH else (1, 2, 3, 4, 5):
        check(f"{kind}:pop{n}", (2 * n, 8 * n), pop_, P, arr(11, 14, n), arr(5, 12, n), K, LG)
        check(f"{kind}:pop{n}_t_peak", (n, 8 * n), pop_, P, arr(11, 14, n), arr(5, 12, n), K, LG, arr(3, 9, n))
        check(f"{kind}:history{n}", (2 * n, 8 * n), hist, P, T, arr(11, 14, n), arr(5, 12, n), K, LG)
        check(f"{kind}:sample{n}", (n, 8 * n), partial(m._mc_diffmah_halo_sample, n_mc=n), P, T, *one, K, LG)
    check(f"{kind}:moments", (200, 1600), m.predict_mah_moments_singlebin, P, T, *one, K, LG)

for n in (2, 3) if not THOROUGH else (1, 2, 3, 4, 5, 20):
    l, t = arr(11, 14, n), arr(5, 12, n)
    check(f"central_peak_times{n}", (n, 0), tpc.mc_t_peak_cenpop, P, l, t, K, np.float32(13.8))
    check(f"central_peak_times_old{n}", (n, 0), tpc0.mc_tpeak_cens, tpc0.DEFAULT_TPCENS_PARAMS
          if hasattr(tpc0, "DEFAULT_TPCENS_PARAMS") else tpc0.DEFAULT_TPC_PARAMS, K, l, t, np.float32(13.8))
    check(f"satellite_peak_times{n}", (n, 0), tps.mc_tpeak_sats, P, K, l, t)
    check(f"truncated_normals{n}", (n, 0), utpk.mc_tp_pdf_satpop, K, utpk.UTP_Params(arr(.3, .7, n), arr(.2, .3, n)))

tm = np.stack([T, T + 1])
tg = np.zeros((2, 2), np.float32) + 11
l2, t2 = arr(11, 14, 2), arr(5, 12, 2)
check("loss:cens", (400, 3200), bc.loss_mah_moments_multibin, P, tm, l2, t2, K, LG, tg, tg, tg)
check("loss:sats", (400, 3200), bs.loss_mah_moments_multibin, P, tm, l2, t2, K, LG, tg, tg, tg)
check("loss:both", (800, 6400), bcs.loss_mah_moments_multibin_censat, P, tm, l2, t2, tm, l2, t2, K, LG,
      tg, tg, tg, tg, tg, tg)
ck.finish()
