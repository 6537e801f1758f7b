"""shared: a simulated mass history and what the fitter should make of it"""
import os
import sys
import itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *  # noqa
from vlib import harness as H  # noqa
from diffmah import diffmah_kernels as dk  # noqa
from diffmah.fitting_helpers import diffmah_fitter_helpers as fh  # noqa


arr_ = H._arr


def history(c, n, zeros=()):
    """times (increasing), masses, log10 masses; masses at the listed snapshots are exactly 0"""
    t, lgt = [], []
    for k in range(n):
        a, b = c.time(f"t{k}", -1.0, 1.3)
        t.append(a)
        lgt.append(b)
        if k:
            c.assume(G("lt", lgt[k - 1], lgt[k]))
    lg = [c.real(f"lgm{k}", 1, 16) for k in range(n)]
    m = [0.0 * pow10(lg[k]) if k in zeros else pow10(lg[k]) for k in range(n)]
    return stack(*t), lgt, stack(*m), lg


def patterns(keep):
    """all ways the snapshots can be kept or dropped: (condition, kept indices)"""
    n = len(keep)
    for bits in itertools.product((True, False), repeat=n):
        yield And(*[k if b else Not(k) for k, b in zip(keep, bits)]), [k for k in range(n) if bits[k]]


def cummax(xs):
    r = []
    for x in xs:
        r.append(x if not r else maximum(r[-1], x))
    return r


def same(got, want, tol=0):
    """goal: the array has exactly these elements"""
    got = arr_(got)
    if got.shape != (len(want),):
        return FALSE
    return And(*[G("eq", g, w) for g, w in zip(got, want)])
