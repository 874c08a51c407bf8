"""Worker environment: loads /repo's current source tree, in the requested precision mode."""

import os
import sys

import numpy as np

REPO = os.environ.get("VMON_REPO", "/repo")


class Env:
    def __init__(self, mode, seed, tier, prop):
        from .core import sub_seed

        # "f64.2" is the third share of the double-precision workload
        self.mode, _, part = mode.partition(".")
        self.part = int(part or 0)
        self.x64 = self.mode != "f32"
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = np.random.default_rng(sub_seed(prop, mode, seed))
        self.dtype = np.float64 if self.x64 else np.float32
        self.eps = float(np.finfo(self.dtype).eps)

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 8 * quick) if self.thorough else quick


def load(mode):
    """Imports astrodynx from REPO/src and checks that it really is that tree."""
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import jax

    if not mode.startswith("f32"):
        jax.config.update("jax_enable_x64", True)
    import types

    # _version.py is generated by the build and not tracked; stand in for it when it is missing
    if not os.path.exists(os.path.join(src, "astrodynx", "_version.py")):
        m = types.ModuleType("astrodynx._version")
        m.version = m.__version__ = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["astrodynx._version"] = m
    import astrodynx

    if not os.path.abspath(astrodynx.__file__).startswith(os.path.abspath(src) + os.sep):
        raise RuntimeError(f"astrodynx imported from {astrodynx.__file__}, not from {src}")
    return astrodynx
