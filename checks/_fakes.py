"""stand-ins for third-party packages (simulation readers, cosmology) as the loaders import them"""
import sys
import types
from types import SimpleNamespace


def fake_module(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    parent, _, child = name.rpartition(".")
    if parent:
        setattr(sys.modules[parent], child, m)
    return m


# third-party packages that are not installed here, replaced by stand-ins
from collections import namedtuple  # noqa
Cosmo = namedtuple("CosmoParams", "Om0 w0 wa h")
WORLD = {}
wcdm = SimpleNamespace(CosmoParams=Cosmo, age_at_z=lambda z, *p: WORLD["age"](z, *p))
fake_module("dsps")
fake_module("dsps.cosmology", flat_wcdm=wcdm, DEFAULT_COSMOLOGY=Cosmo(0.3, -1.0, 0.0, 0.7))
fake_module("umachine_pyio")
fake_module("umachine_pyio.load_mock", load_mock_from_binaries=lambda *a, **k: WORLD["um"](*a, **k))
fake_module("haccytrees", coretrees=SimpleNamespace(corematrix_reader=lambda *a, **k: WORLD["hacc"](*a, **k)),
            Simulation=SimpleNamespace(simulations={}, parse_config=lambda n: WORLD["sim"](n)))

