"""run the repo's batch scripts: several ranks of one communicator under any order of execution, scratch files only.

Each rank is the script's own source executed as __main__ in its own namespace; control passes between ranks only
at communicator calls, and which rank goes next is a symbolic choice (or a fixed order).
"""
import builtins
import contextlib
import glob
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
import threading
import types
import warnings
from types import SimpleNamespace
import h5py
import numpy as np
from _fakes import fake_module
from _h5 import Group
from vlib import harness as H
from vlib import symnp as SN

SCRIPTS = os.path.join(H.REPO, "scripts", "fitting_scripts")
warnings.filterwarnings("ignore", message=".*Empty input file.*")
threading.stack_size(256 * 2 ** 20)


class Stop(BaseException):
    """ends the ranks that are left"""


class Rank:
    def __init__(self, world, rank):
        self.w, self.rank, self.size = world, rank, world.n
        self.count = {}
        self.go, self.ready, self.done, self.err = threading.Semaphore(0), (lambda: True), False, None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _wait(self, ready):
        self.ready = ready
        self.w.back.release()
        self.go.acquire()
        if self.w.stop:
            raise Stop()

    def _slot(self, kind):
        k = self.count[kind] = self.count.get(kind, 0) + 1
        return self.w.board.setdefault((kind, k), {})

    def _all(self, kind, x):
        s = self._slot(kind)
        s[self.rank] = x
        self._wait(lambda: len(s) == self.size)
        return [s[r] for r in range(self.size)]

    def Barrier(self):
        self._all("barrier", None)

    barrier = Barrier

    def allreduce(self, x, op=None):
        return _fold(op, self._all("allreduce", x))

    def allgather(self, x):
        return self._all("allgather", x)

    def reduce(self, x, op=None, root=0):
        if self.rank == root:
            return _fold(op, self._all("reduce", x))
        self._slot("reduce")[self.rank] = x

    def gather(self, x, root=0):
        if self.rank == root:
            return self._all("gather", x)
        self._slot("gather")[self.rank] = x

    def _from(self, kind, x, root):
        s = self._slot(kind)
        if self.rank == root:
            s[root] = x
        if root not in s or not self.w.eager:
            self._wait(lambda: root in s)
        return s[root]

    def bcast(self, x, root=0):
        return self._from("bcast", x, root)

    def scatter(self, x, root=0):
        return self._from("scatter", x, root)[self.rank]

    def send(self, x, dest, tag=0):
        self.w.mail.setdefault((self.rank, dest, tag), []).append(x)

    def recv(self, source=0, tag=0):
        box = self.w.mail.setdefault((source, self.rank, tag), [])
        if not box or not self.w.eager:
            self._wait(lambda: len(box) > 0)
        return box.pop(0)


def _fold(op, xs):
    f = {"sum": lambda a, b: a + b, "max": SN.NPProxy().maximum, "min": SN.NPProxy().minimum, None: lambda a, b: a + b}[op]
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _numpy(c, overrides):
    if c.sym:
        return SN.NPProxy(overrides)
    return SN._Over(np, overrides)


class Batch:
    """one run of one script; use as a context manager"""

    def __init__(self, c, script, np_overrides=None, modules=None):
        self.c, self.script = c, os.path.join(SCRIPTS, script)   # (an absolute path stays as it is)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="verif_batch_"))
        self.out = os.path.join(self.dir, "out")
        os.mkdir(self.out)
        self.h5, self.escapes, self.deleted = {}, [], []
        self.ov, self.modules = dict(np_overrides or {}), dict(modules or {})
        if c.sym:
            self.ov.setdefault("genfromtxt", self._text)
            self.ov.setdefault("loadtxt", self._text)
        self.nsched, self.eager = 0, not H.THOROUGH   # eager: a message that is there is taken without a switch

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.dir.startswith(os.path.realpath(tempfile.gettempdir()) + "/verif_batch_"):
            shutil.rmtree(self.dir)

    # ------------------------------------------------------ files
    def _text(self, fn, dtype=float, **k):
        with open(fn) as f:
            rows = [x.split("#")[0].split() for x in f]
        rows = [r for r in rows if r]
        if len({len(r) for r in rows}) > 1:
            raise ValueError("rows of different lengths")
        a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object if self.c.sym else "U99")
        for i, r in enumerate(rows):
            a[i] = r
        nd = k.get("ndmin", 0)
        if not rows:
            a = a.reshape((0,) if nd < 2 else (0, 1))
        else:
            while a.ndim > nd and 1 in a.shape:
                a = a[0] if a.shape[0] == 1 else a[:, 0]
        if str(dtype) not in ("str", "<class 'str'>") and np.dtype(dtype).kind != "U":
            raise SN.Unsupported("text read as numbers")
        return SN.SA.of(a) if self.c.sym else a

    def _inside(self, fn):
        return os.path.realpath(str(fn)).startswith(self.dir + "/")

    def File(self, fn, mode="r", *a, **k):
        fn = os.path.realpath(str(fn))
        if mode == "w":
            if not self._inside(fn):
                self.escapes.append(fn)
                fn = os.path.join(self.dir, "elsewhere")
            open(fn, "w").close()
            self.h5[fn] = Group()
        elif not os.path.exists(fn) or fn not in self.h5:
            raise FileNotFoundError(fn)
        return contextlib.nullcontext(self.h5[fn])

    def h5file(self, fn, mode="r"):
        return self.File(fn, mode) if self.c.sym else h5py.File(fn, mode)

    def remove(self, fn, *a, **k):
        if self._inside(fn):
            if os.path.isdir(fn):
                shutil.rmtree(fn)
            else:
                self._unlink(fn)
            self.deleted.append(os.path.basename(fn))
        else:
            self.escapes.append(str(fn))

    def shell(self, cmd, *a, **k):
        """a stand-in for the shell: rm of files, in the scratch directory only"""
        words = shlex.split(cmd) if isinstance(cmd, str) else [str(x) for x in cmd]
        if words[:1] != ["rm"]:
            raise SN.Unsupported(f"command {cmd!r}")
        for w in words[1:]:
            if not w.startswith("-"):
                hits = glob.glob(w) if any(x in w for x in "*?[") else [w]
                for fn in hits:
                    if not self._inside(fn):
                        self.escapes.append(fn)
                    elif os.path.isfile(fn) or "-rf" in words or "-r" in words:
                        self.remove(fn)
        return k.get("ret", 0)

    def files(self):
        return sorted(os.listdir(self.out))

    def columns(self, name):
        fn = os.path.join(self.out, name)
        with self.h5file(fn) as f:
            return {k: f[k][()] for k in f.keys()}

    # ------------------------------------------------------ ranks
    def _import(self, rank):
        mpi = types.ModuleType("mpi4py")
        mpi.MPI = SimpleNamespace(COMM_WORLD=rank, SUM="sum", MAX="max", MIN="min")

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and (name == "mpi4py" or name.startswith("mpi4py.")):
                return mpi.MPI if name == "mpi4py.MPI" and fromlist else mpi
            if name == "numpy" and not fromlist:
                return self.np
            if name in self.modules:
                return self.modules[name]
            return builtins.__import__(name, globals, locals, fromlist, level)
        return imp

    def _rank(self, r):
        r.go.acquire()
        try:
            if not self.stop:
                b = dict(builtins.__dict__)
                b["__import__"] = self._import(r)
                b["print"] = lambda *a, **k: None
                g = {"__name__": "__main__", "__file__": self.script, "__builtins__": b}
                if self.c.sym:
                    g.update(float=SN.symfloat, int=SN.symint)
                    exec(self.code, g)
                else:
                    with H.jax.enable_x64(self.c.x64):
                        exec(self.code, g)
        except Stop:
            pass
        except SystemExit as e:
            if e.code not in (None, 0):
                r.err = RuntimeError(f"script exits with {e.code}")
        except BaseException as e:  # noqa
            r.err = e
        r.done = True
        self.back.release()

    def run(self, argv, nranks=1, order=None, attrs=()):
        """execute all ranks to their end; order: None = any interleaving, else ranks by priority.
        Returns True if every rank finished, False on deadlock"""
        self.n, self.board, self.mail, self.stop = nranks, {}, {}, False
        self.back = threading.Semaphore(0)
        self.np = _numpy(self.c, self.ov)
        self.code = compile(open(self.script).read(), self.script, "exec")
        patch = [(os, "system", self.shell), (subprocess, "check_output", self.shell), (subprocess, "call", self.shell),
                 (subprocess, "check_call", self.shell), (subprocess, "run", self.shell), (os, "remove", self.remove),
                 (sys, "argv", [self.script, *argv])]
        self._unlink = os.unlink
        if self.c.sym:
            patch.append((h5py, "File", self.File))
        return self.c.py(lambda: self._go(order), np_overrides=self.ov, attrs=[*patch, *attrs])

    def _go(self, order):
        ranks = [Rank(self, k) for k in range(self.n)]
        ths = [threading.Thread(target=self._rank, args=(r,), daemon=True) for r in ranks]
        for t in ths:
            t.start()
        try:
            while True:
                left = [r for r in ranks if not r.done]
                if not left:
                    return True
                run = [r for r in left if r.ready()]
                if not run:
                    return False
                r = self._choose(run, order)
                r.go.release()
                self.back.acquire()
                if r.err is not None:
                    raise r.err
        finally:
            self.stop = True
            for r in ranks:
                if not r.done:
                    r.go.release()
            for t in ths:
                t.join()

    def _choose(self, run, order):
        if order is not None:
            return min(run, key=lambda r: order.index(r.rank))
        for k, r in enumerate(run[:-1]):
            self.nsched += 1
            v = self.c.boolean(f"sched{self.nsched}")
            if SN.PATH.choose(v) if self.c.sym else v:
                return r
        return run[-1]
