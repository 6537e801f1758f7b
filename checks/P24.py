from _fit import *
from diffmah import utils as ut

N = 6 if THOROUGH else 5
ck = Check("P24", "Trimmed statistics keep central percentiles; broadcasting keeps every value",
           bounds=f"samples of 2 to {N} distinct values in any order in [-100,100], any trimming fraction in "
                  "[0, 0.5) not within 1e-3 of the boundary between two cuts; up to 4 arguments, each a scalar or an array of 1 to 4 values",
           outside="larger samples; tied values", assumptions=["real arithmetic"])


def perms(n):
    """sorted values, presented in one of the n! orders (all orders for n<=3, a spread of them beyond)"""
    ps = list(itertools.permutations(range(n)))
    return ps if n <= 3 or n == 4 and THOROUGH else [ps[0], ps[7], ps[17], ps[len(ps) // 2 + 3]]


def sample(c, n, perm):
    s = [c.real(f"s{k}", -100, 100) for k in range(n)]
    for a, b in zip(s, s[1:]):
        c.assume(le(a + 1e-3, b))
    return s, stack(*[s[k] for k in perm])


def trimmed(n, k, perm):
    def sc(c):
        """any fraction that cuts off k values at each end"""
        p = c.real("p", max(0.0, (k - 1 + 1e-3) / (n - 1)), min(k / (n - 1), .5 - 1e-4) if k == 0 else
                   min((k - 1e-3) / (n - 1), .5 - 1e-4))
        s, x = sample(c, n, perm)
        kept = s[k:n - k]
        mean = sum(kept) / len(kept)
        c.check("mean", eq(c.call(ut.trimmed_mean, x, p), mean), tol=1e-5)
        if len(kept) < 2:
            return
        m, v = c.call(ut.trimmed_mean_and_variance, x, p)
        c.check("same_mean", eq(m, mean), tol=1e-5)
        c.check("variance", eq(v, sum((q - mean) * (q - mean) for q in kept) / (len(kept) - 1)), tol=1e-3)
    return sc


for n in range(2, N + 1):
    for k in range((n + 1) // 2):
        for i, perm in enumerate(perms(n)):
            ck.scenario(trimmed(n, k, perm), f"trimmed{n}:cut{k}:order{i}")


def broadcast(sizes, jaxy):
    def sc(c):
        args = [c.real(f"a{k}", -100, 100) if n == 0 else c.vec(f"a{k}_", n, -100, 100) for k, n in enumerate(sizes)]
        npts = max(max(sizes), 1)
        bad = any(n not in (0, 1, npts) for n in sizes)
        r = c.py(ut.get_1d_arrays, *args, jax_arrays=jaxy, catch=(AssertionError,))
        if bad:
            c.check("mismatch_refused", TRUE if isinstance(r, H.Raised) else FALSE)
            return
        if isinstance(r, H.Raised):
            c.check("accepted", FALSE)
            return
        c.check("one_each", TRUE if len(r) == len(sizes) else FALSE)
        for k, n in enumerate(sizes):
            a = list(arr_(args[k])) if n else [args[k]]
            c.check(f"values{k}", same(r[k], a if len(a) == npts else a * npts), tol=1e-5)
    return sc


M = 4 if THOROUGH else 3
for nargs in range(1, 4):
    for sizes in itertools.product(range(M + 1), repeat=nargs):
        if nargs == 3 and not THOROUGH and sum(sizes) % 2 == 0:
            continue
        ck.paths(broadcast(sizes, False), "broadcast:" + "_".join(map(str, sizes)))
        if nargs < 3 or THOROUGH:
            ck.paths(broadcast(sizes, True), "broadcast_jax:" + "_".join(map(str, sizes)))
ck.finish()
