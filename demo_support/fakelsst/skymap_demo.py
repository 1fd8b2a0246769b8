"""Import this first in a demonstration: it makes the lsst.skymap under
/repo/python importable with the stand-ins beside this file."""
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
_here = os.path.dirname(os.path.abspath(__file__))
_repo = os.environ.get("DEMO_REPO", os.getcwd())
sys.path[:0] = [os.path.join(_repo, "python"), _here]
warnings.simplefilter("ignore", FutureWarning)
_v = types.ModuleType("lsst.skymap.version")
_v.__all__ = []
sys.modules["lsst.skymap.version"] = _v
import lsst.skymap  # noqa: E402
