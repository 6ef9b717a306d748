"""Loads the code under test: Python from /repo, kernels from the fresh build."""
import importlib, importlib.machinery, importlib.util, os, sys

from . import build

REPO = build.REPO


class _Loader(importlib.machinery.SourceFileLoader):
    codes = {}

    def get_code(self, name):
        c = self.codes.get(name)
        if c is None:
            c = self.codes[name] = super().get_code(name)
        return c


class _Finder:
    """Modules of the package, compiled once"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "ccblade":
            return None
        f = os.path.join(REPO, *name.split("."))
        pkg = os.path.isdir(f)
        f = os.path.join(f, "__init__.py") if pkg else f + ".py"
        if not os.path.isfile(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[os.path.dirname(f)] if pkg else None)


def fresh():
    """In a forked process: imports the package again, so that it is this process which imported it."""
    names = [m for m in sys.modules if m.split(".")[0] == "ccblade" and m != "ccblade._bem"]
    for m in names:
        del sys.modules[m]
    bem = sys.modules["ccblade._bem"]
    import ccblade

    ccblade._bem = bem
    for m in names:
        importlib.import_module(m)
    later = [m for m in reversed(list(sys.modules)) if m.startswith("worlds.") and m != "worlds.base"]
    for m in ["sim.simaf", "worlds.base"] + later:  # classes derived from it
        mod = sys.modules.get(m)
        if mod is not None:
            exec(_Loader(m, mod.__file__).get_code(m), mod.__dict__)


def load(world_id=""):
    import numpy, scipy.optimize, scipy.interpolate  # noqa: F401  before the locks are patched

    if world_id in ("C02", "C14", "C15", "C16", "C20", "C22", ""):
        import openmdao.api  # noqa: F401
    import multiprocessing.process, concurrent.futures, logging, inspect, runpy, argparse, warnings, pickle, copy  # noqa: F401
    from . import sched

    sched.patch_locks(REPO)
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder)
    spec = importlib.util.spec_from_file_location("ccblade._bem", os.environ["SIM_BEM"])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["ccblade._bem"] = mod
    spec.loader.exec_module(mod)
    import ccblade

    ccblade._bem = mod
    import ccblade.ccblade, ccblade.airfoilprep, ccblade.csystem  # noqa: F401

    if world_id in ("C02", "C14", "C15", "C16", "C20", "C22", ""):
        import ccblade.ccblade_component  # noqa: F401
    for m in (ccblade.ccblade, ccblade.airfoilprep):
        if not m.__file__.startswith(REPO + "/"):
            raise RuntimeError("wrong module " + m.__file__)
    if ccblade.ccblade._bem is not mod:
        raise RuntimeError("the code under test uses another extension module")
    import gc

    gc.collect()
    gc.freeze()
