"""C14: OpenMDAO partials and totals follow the current inputs.  (see comp.py)"""
from . import comp


class World(comp.Comp):
    ID = "C14"
    RULE = ("a run is 5-40 operations (set an input, run, compute totals, apply/linearise, check partials, perturb, set up again) on 1-3 problems of 1-2 components (loads, evaluation, geometry), with interruptions and airfoil errors inside them; "
            "non-trivial: at least two sets of totals were compared after a disturbance")
    report = ("totals",)
    KINDS = ("loads", "loads", "evaluate", "evaluate", "geometry")
