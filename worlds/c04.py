"""C04: a section without a solution is contained.

Faults: the airfoil data of chosen sections evaluate to not-a-number for good, or from the n-th to
the m-th evaluation of one section.  Every section has its own airfoil object.
Models: the rotor without the fault for all untouched sections, azimuths and points; the rotor whose
bad sections have zero lift and drag for the totals.
"""
import warnings
import numpy as np
from sim import gen, simaf, util
from .base import Base, Run, log_int, same

LOADK = ("Np", "Tp", "a", "ap", "alpha")


class ZeroAF(simaf.SimAF):
    def evaluate(self, alpha, Re, return_cm=False):
        r = super().evaluate(alpha, Re, return_cm)
        return tuple(v * 0.0 + 1e-30 if i < 2 else v for i, v in enumerate(r))  # as good as none; exactly zero is what a failing section reports


class World(Base):
    ID = "C04"
    QUICK = {"runs": 1500, "wall": 50}
    THOROUGH = {"runs": 60000, "wall": 800}
    SHRINK = ("steps",)
    RULE = ("a run is 2-5 analyses of one rotor, each with some sections failing throughout, or one section failing for a window of its evaluations, or no fault (recovery); "
            "non-trivial: not-a-number was delivered in at least one analysis and at least one unaffected section, point or analysis was compared")
    MEASURE = "distinct digests of (operation, failing sections, window, warning seen)"
    STUB = ["airfoils that turn to not-a-number on command, otherwise the real CCAirfoil"]

    def gen(self, rng, tier):
        n = rng.choice([3, 4, 5, 6])
        s = gen.rotor_spec(rng, n, n=n, small=True)
        s["af"] = list(range(n))
        kinds = [gen.af_spec(rng) for _ in range(rng.choice([1, 2]))]
        afs = [kinds[i % len(kinds)] for i in range(n)]
        steps = []
        for _ in range(rng.randint(2, 5)):
            q = gen.rotor_op(rng, s, npts=3, inverse=False)
            if q["op"] == "eval":
                q["p"] = [round(p + 0.0137 * i, 4) for i, p in enumerate(q["p"])]  # all different
            x = rng.random()
            if x < 0.5:
                k = rng.choice([1, 1, 2, n])
                f = {"kind": "persistent", "secs": sorted(rng.sample(range(n), min(k, n))), "which": rng.choice(["both", "cl", "cd"])}
            elif x < 0.88:
                first = log_int(rng, 1, 60)
                f = {"kind": "transient", "secs": [rng.randrange(n)], "which": rng.choice(["both", "cl", "cd"]), "first": first, "len": rng.choice([1, 1, 2, 3, 10, 1000]),
                     "point": rng.randrange(len(q["p"])) if q["op"] == "eval" else None}
            else:
                f = {"kind": "none", "secs": []}
            steps.append({"q": q, "f": f})
        return {"afs": afs, "rotor": s, "steps": steps, "sig": util.digest([afs, s, [t["q"] for t in steps]])}

    def _rotor(self, plan, zero=(), deriv=None):
        simaf.ctl.reset()
        afs = [gen.make_af(a, cls=ZeroAF if i in zero else simaf.SimAF) for i, a in enumerate(plan["afs"])]
        for i, a in enumerate(afs):
            a.tag = i
        s = dict(plan["rotor"])
        if deriv is not None:
            s["deriv"] = deriv
        return gen.make_rotor(s, afs)

    def oracle(self, plan):
        jobs = []
        for t in plan["steps"]:
            base = {"afs": plan["afs"], "rotor": plan["rotor"], "q": t["q"]}
            jobs.append(dict(base, zero=[], deriv=None))
            jobs.append(dict(base, zero=t["f"]["secs"], deriv=False) if t["f"]["kind"] == "persistent" and t["q"]["op"] == "eval" else None)
        return jobs

    def answer(self, job):
        if job is None:
            return None
        r = self._rotor(job, job["zero"], job["deriv"])
        out = util.outcome(gen.do_op, r, job["q"])
        return out if out[0] == "ok" else ("exc", out[1])

    def run(self, plan, want):
        run = Run()
        rotor = self._rotor(plan)
        hits = compared = 0
        for n, t in enumerate(plan["steps"]):
            q, f = t["q"], t["f"]
            ref, zref = want[2 * n], want[2 * n + 1]
            c = simaf.ctl
            c.reset()
            c.rotor = rotor
            secs = f["secs"]
            if f["kind"] == "persistent":
                c.nan = {i: (1, None, f["which"], None) for i in secs}
            elif f["kind"] == "transient":
                pt = None if f["point"] is None else float(np.deg2rad(np.array(q["p"])[f["point"]]))
                c.nan = {i: (f["first"], f["first"] + f["len"] - 1, f["which"], pt) for i in secs}
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                got = util.outcome(gen.do_op, rotor, q)
            nh = c.nan_hits
            c.reset()
            warned = any(not issubclass(w.category, RuntimeWarning) for w in ws)
            hits += nh > 0
            if nh:
                run.fault(f["kind"] + " nan", 1)
            run.op(q["op"])
            run.steps += 1
            run.ev(n, q["op"], f["kind"], secs, nh, "warned" if warned else "")
            run.sched += "%s %s %s %s %s;" % (q["op"], f["kind"], secs, f.get("first"), warned)
            if got[0] == "exc":
                if ref[0] == "exc" and ref[1] == got[1]:
                    continue
                if f["kind"] == "transient" and got[1] == "ValueError" and plan["rotor"]["deriv"] and plan["afs"][secs[0]]["k"] == "cyl":
                    run.probe("gradient refused at zero normal force")
                    continue
                run.bad("no result", "analysis %d (%s, %s sections %s) ended with %r" % (n, q["op"], f["kind"], secs, got[2]))
                continue
            if ref[0] == "exc":
                run.probe("reference failed")
                continue
            g, r = got[1], ref[1]
            oms = q["Om"] if isinstance(q["Om"], list) else [q["Om"]]
            if f["kind"] == "persistent" and nh and any(o != 0.0 for o in oms) and not warned and (f["which"] != "cd" or plan["rotor"]["usecd"]):
                run.bad("no warning", "analysis %d (%s): sections %s fail and nothing was warned" % (n, q["op"], secs))
            if q["op"] == "loads":
                bad = set(secs) if nh else set()
                ok = [i for i in range(len(plan["afs"])) if i not in bad]
                for k in LOADK:
                    v = g["/0/" + k]
                    if (~np.isfinite(v) & np.isfinite(r["/0/" + k])).any():  # edgewise flow has no finite induction
                        run.bad("nan in loads", "analysis %d: %s of sections %s is %s (%s in sections %s)" % (n, k, np.flatnonzero(~np.isfinite(v)).tolist(), v, f["kind"], secs))
                    if f["kind"] == "persistent" and nh:
                        for i in secs:
                            if v[i] != 0.0:
                                run.bad("not zeroed", "analysis %d: %s of the failing section %d is %r" % (n, k, i, float(v[i])))
                if ok:
                    rows = lambda d: {k: (v[ok] if isinstance(v, np.ndarray) and v.ndim >= 1 and v.shape[0] == len(plan["afs"]) else v) for k, v in d.items()}
                    d = same(rows(g), rows(r))
                    if d:
                        run.bad("other sections", "analysis %d (%s in sections %s): %s (sections %s)" % (n, f["kind"], secs, d, ok))
                    compared += 1
            else:
                tot = [k for k in r if k.startswith("/0/") and k != "/0/W"]
                npt = len(q["p"])
                for k in tot:
                    if not np.isfinite(g[k]).all() and np.isfinite(r[k]).all():
                        run.bad("nan in totals", "analysis %d: %s is %s (%s in sections %s)" % (n, k, g[k], f["kind"], secs))
                if f["kind"] == "persistent" and nh:
                    if zref is not None and zref[0] == "ok":
                        tidy = lambda v: np.where(np.abs(v) < 1e-12, 0.0, np.where(np.isfinite(v), v, np.nan))  # coefficients without wind: 0/0
                        d = same({k: tidy(g[k]) for k in tot}, {k: tidy(zref[1][k]) for k in tot})
                        if d:
                            run.bad("totals", "analysis %d (sections %s carry no load): %s" % (n, secs, d))
                        compared += 1
                else:
                    keep = [j for j in range(npt) if not (nh and j == f.get("point"))]
                    sel = lambda d: {k: (v[keep] if isinstance(v, np.ndarray) and v.ndim >= 1 and v.shape[0] == npt else v) for k, v in d.items() if k != "/0/W"}
                    d = same(sel(g), sel(r)) if keep else None
                    if d:
                        run.bad("other points", "analysis %d (%s in section %s of point %s): %s" % (n, f["kind"], secs, f.get("point"), d))
                    compared += bool(keep)
            run.ev(util.sig_of(g))
        run.nontrivial = hits > 0 and compared > 0
        return run
