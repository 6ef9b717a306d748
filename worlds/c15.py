"""C15: OpenMDAO component outputs depend only on the current inputs.  (see comp.py)"""
from . import comp


class World(comp.Comp):
    ID = "C15"
    RULE = ("a run is 5-40 operations (set an input, run, compute totals, apply/linearise, perturb, set up again) on 1-3 problems of 1-2 components (loads, evaluation, twist design, geometry), with interruptions and airfoil errors inside them; "
            "non-trivial: at least two sets of outputs were compared")
    report = ("outputs", "inputs", "errors")
    KINDS = ("loads", "evaluate", "twist", "twist", "geometry")
    WANT_TOTALS = False
