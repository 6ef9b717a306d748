"""What the worlds share."""
import math, os
import numpy as np
from sim import abort, build, gen, simaf, util
from sim.core import Run

REPO = build.REPO
REAL_CORE = ["/repo/ccblade/ccblade.py", "/repo/ccblade/airfoilprep.py", "/repo/ccblade/src/bem.f90 (rebuilt from the working tree)", "numpy, scipy"]


def log_int(rng, lo, hi):
    return int(round(math.exp(rng.uniform(math.log(lo), math.log(hi)))))


def scales(flatres):
    """Noise floors: totals that cancel over the azimuth are compared on the scale of those that do not."""
    s = {}
    m = lambda k: float(np.nanmax(np.abs(flatres[k]))) if k in flatres and isinstance(flatres[k], np.ndarray) and flatres[k].size and np.isfinite(flatres[k]).any() else 0.0
    for c in ("", "C"):
        f = max(m("/0/%sT" % c), m("/0/%sQ" % c) if c else 0.0)
        q = max(m("/0/%sMb" % c), m("/0/%sQ" % c))
        for k in "TYZ":
            s["/0/%s%s" % (c, k)] = f
        for k in ("My", "Mz", "Mb", "Q"):
            s["/0/%s%s" % (c, k)] = q
        s["/0/%sP" % c] = m("/0/%sP" % c)
        for k in ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P"):
            for p in flatres:
                if p.startswith("/1/d%s%s/" % (c, k)):
                    g = p.rsplit("/", 1)[1]
                    s[p] = max(m("/1/d%s%s/%s" % (c, x, g)) for x in (("T", "Y", "Z") if k in "TYZ" else ("Q", "My", "Mz", "Mb") if k != "P" else ("P",)))
                    if c and k in ("Y", "Z", "My", "Mz"):
                        base = abs(m("/0/%s%s" % (c, k)))
                        if base < 1e-6 * (f if k in "YZ" else q):
                            s[p] = math.inf  # divided by a total that is rounding noise
    return s


def same(got, want, rtol=1e-7, skip=()):
    sc = scales(want)
    drop = tuple(k for k, v in sc.items() if v == math.inf) + tuple(skip)
    return util.differ(got, want, rtol, drop, {k: v for k, v in sc.items() if v != math.inf})


def exact(got, want):
    return util.differ(got, want, 0.0)


class Base:
    QUICK = {"runs": 400, "wall": 45}
    THOROUGH = {"runs": 20000, "wall": 780}
    MEASURE = "distinct digests of the sequence of scheduling decisions and fault positions of a run"
    ASSUME = []
    STUB = []
    REAL = REAL_CORE
    scratch = None

    def oracle(self, plan):
        return []

    def answer(self, job):
        raise NotImplementedError


def build_site(plan, cls=simaf.SimAF):
    afs = [gen.make_af(s, cls=cls) for s in plan["afs"]]
    for i, a in enumerate(afs):
        a.tag = i
    return afs
