"""an in-memory stand-in for h5py.File in symbolic runs; the real one, on scratch files, on replay"""
import os
import shutil
import tempfile
import contextlib
import numpy as np
import h5py
from vlib import symnp as SN


class Data:
    def __init__(self, v):
        self.v = v if isinstance(v, np.ndarray) else SN.SA.of(v)
        self.shape, self.size, self.ndim = self.v.shape, self.v.size, self.v.ndim

    @property
    def dtype(self):
        return self.v.dtype

    def __getitem__(self, ix):
        if ix == ():
            return self.v if self.v.shape else self.v[()]
        return self.v[ix]

    def __len__(self):
        return len(self.v)


class Group(dict):
    """datasets and groups by path"""

    def __init__(self):
        super().__init__()
        self.attrs = {}

    def _walk(self, key, make=False):
        g, parts = self, key.strip("/").split("/")
        for p in parts[:-1]:
            if make and not dict.__contains__(g, p):
                dict.__setitem__(g, p, Group())
            g = dict.__getitem__(g, p)
        return g, parts[-1]

    def __getitem__(self, key):
        g, k = self._walk(key)
        return dict.__getitem__(g, k)

    def __contains__(self, key):
        try:
            self[key]
            return True
        except KeyError:
            return False

    def __setitem__(self, key, v):
        g, k = self._walk(key, True)
        if dict.__contains__(g, k):
            raise OSError("name already exists")
        dict.__setitem__(g, k, Data(v))

    def create_dataset(self, key, data=None, **k):
        self[key] = data
        return self[key]

    def create_group(self, key):
        g, k = self._walk(key, True)
        dict.__setitem__(g, k, Group())
        return dict.__getitem__(g, k)

    def keys(self):
        return sorted(dict.keys(self))

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def get(self, k, d=None):
        return self[k] if k in self else d


class Disk:
    """the files of one run"""

    def __init__(self, c):
        self.c, self.files = c, {}
        self.dir = None if c.sym else tempfile.mkdtemp(prefix="verif_h5_")

    def path(self, name):
        return os.path.join(self.dir, name) if self.dir else name

    def File(self, fn, mode="r", *a, **k):
        fn = str(fn)
        if mode == "w":
            self.files[fn] = Group()
        elif fn not in self.files:
            if mode == "a":
                self.files[fn] = Group()
            else:
                raise FileNotFoundError(fn)
        return contextlib.nullcontext(self.files[fn])

    @property
    def attrs(self):
        return [(h5py, "File", self.File)] if self.c.sym else []

    def open(self, name, mode="r"):
        return self.File(self.path(name), mode) if self.c.sym else h5py.File(self.path(name), mode)

    def columns(self, name, group=None):
        """everything stored in a flat file"""
        with self.open(name) as f:
            f = f if group is None else f[group]
            return {k: f[k][()] for k in f.keys()}

    def done(self):
        if self.dir and self.dir.startswith(tempfile.gettempdir()):
            shutil.rmtree(self.dir)
            self.dir = None


def session(fn):
    """scenario with its own Disk, removed afterwards"""
    def sc(c):
        d = Disk(c)
        try:
            fn(c, d)
        finally:
            d.done()
    sc.__name__ = fn.__name__
    return sc
