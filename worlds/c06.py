"""C06: the caller's data are never modified, and may be reused.

Everything the caller passes in lives in buffers of the caller.  After every operation, also one that failed or
was interrupted at an exact line, all buffers must hold what they held; now and then the caller
overwrites buffers of calls that have returned, and later answers and earlier results must not move.
Model for the answers: the same operation with fresh objects and fresh buffers in a pristine process.
"""
import copy
import numpy as np
from sim import abort, gen, simaf, util
from .base import REPO, Base, Run, exact, log_int, same


def image(x):
    """A value that tells whether x was modified."""
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes()) if x.dtype != object else [id(v) for v in x]
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [image(v) for v in x])
    if isinstance(x, (int, float, str, bool)) or x is None:
        return repr(x)
    return id(x)


class World(Base):
    ID = "C06"
    QUICK = {"runs": 850, "wall": 60}
    THOROUGH = {"runs": 60000, "wall": 800}
    SHRINK = ("steps",)
    RULE = ("a run is 6-18 steps over the caller's buffers (airfoil tables, geometry, conditions, polars): constructions, analyses, queries, preprocessing, some failing or interrupted, and buffer reuse; "
            "non-trivial: at least one step failed, was interrupted or reused buffers, and at least three steps were checked after")
    MEASURE = "distinct digests of (step kinds, form of the buffers, functions struck)"
    STUB = ["airfoil model errors are raised by a subclass of CCAirfoil that otherwise calls the real one"]
    ASSUME = ["airfoil outline coordinates (x, y), the arrays given to eval_unsteady, the list of airfoils and attributes assigned by the caller are shared with the caller by design: checked for modification, not for reuse"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        pols = [gen.polar_spec(rng) for _ in range(3)]
        for a in afs:
            if rng.random() < 0.3:
                a["odd"] = [[rng.randrange(3), rng.randrange(400), rng.randrange(4), rng.choice([-0.01, -0.002, 0.0, 1.5, -2.0])] for _ in range(rng.choice([1, 2, 4]))]
                if not gen.fits(a):
                    del a["odd"]
        for p in pols:
            if rng.random() < 0.2:
                gen.odd_polar(rng, p)
        steps = []
        for _ in range(rng.randint(6, 18)):
            x = rng.random()
            if x < 0.12:
                t = {"t": "af", "i": rng.randrange(naf)}
                if rng.random() < 0.3:
                    t = {"t": "badaf", "i": t["i"], "how": rng.choice(["nan cm", "nan cm", "nan", "inf", "descending", "short", "one", "Re order"]), "at": [rng.randrange(2, 5), rng.randrange(60), rng.randrange(4)]}
            elif x < 0.24:
                t = {"t": "rotor"}
                if rng.random() < 0.3:
                    t = {"t": "badrotor", "how": rng.choice(["few airfoils", "few airfoils", "no airfoils", "many airfoils", "short", "long", "descending", "nan", "outside"]), "k": rng.choice(gen.ARRAYS)}
            elif x < 0.62:
                t = {"t": "op", "q": gen.rotor_op(rng, s, npts=2 if rng.random() < 0.4 else 1), "swap": rng.random() < 0.2}
            elif x < 0.7:
                t = {"t": "afq", "q": gen.af_op(rng, naf, afs)}
            elif x < 0.75:
                t = {"t": "polars"}
            elif x < 0.87:
                t = {"t": "pop", "q": gen.polar_op(rng, 3, 2)}
            else:
                t = {"t": "reuse", "what": rng.choice(["geom", "cond", "table", "polar", "all", "all"]), "how": rng.choice(["garbage", "scale", "nan"])}
            if t["t"] not in ("reuse",):
                y = rng.random()
                if y < 0.25:
                    t["abort"] = [log_int(rng, 1, 4000 if t["t"] == "op" else 60), rng.choice(["KeyboardInterrupt", "MemoryError"])]
                elif y < 0.35 and t["t"] == "op":
                    t["fail"] = [rng.choice(["ValueError", "RuntimeError"]), "e", log_int(rng, 1, 200)]
            if t["t"] == "op" and t["q"]["op"] != "inverse" and rng.random() < 0.12:  # conditions that make no sense
                k = rng.choice([k for k in ("U", "Om", "p") if isinstance(t["q"][k], list)] or ["U"])
                if not isinstance(t["q"][k], list):
                    t["q"][k] = [t["q"][k]] * len(s["r"])
                t["q"][k][rng.randrange(len(t["q"][k]))] = rng.choice([float("nan"), float("nan"), float("inf"), -5.0, 0.0, 720.0])
            t["form"] = rng.choice(["array", "array", "array", "list", "view", "readonly"])
            steps.append(t)
        return {"afs": afs, "rotor": s, "pols": pols, "xy": rng.random() < 0.5, "steps": steps, "sig": util.digest([afs, s, pols])}

    def oracle(self, plan):
        jobs = []
        for t in plan["steps"]:
            if t["t"] in ("op", "afq", "pop"):
                jobs.append({"afs": plan["afs"], "rotor": plan["rotor"], "pols": plan["pols"], "t": t["t"], "q": t["q"]})
        return jobs

    def _airs(self, pols):
        from ccblade.airfoilprep import Airfoil

        return [Airfoil([pols[1], pols[0]]), Airfoil([pols[2]])]

    def answer(self, job):
        simaf.ctl.reset()
        q = job["q"]
        if job["t"] == "pop":
            pols = [gen.make_polar(p) for p in job["pols"]]
            out = util.outcome(lambda: gen.polar_data(gen.do_polar_op(pols, self._airs(pols), q)))
        else:
            afs = [gen.make_af(a, cls=simaf.SimAF) for a in job["afs"]]
            if job["t"] == "afq":
                out = util.outcome(gen.af_query, afs[q["i"]], q)
            else:
                out = util.outcome(gen.do_op, gen.make_rotor(job["rotor"], afs), q)
        return out if out[0] == "ok" else ("exc", out[1])

    def run(self, plan, want):
        run = Run()
        simaf.ctl.reset()
        held = {}  # name -> (group, object, image)

        def hold(group, name, obj):
            held[name] = [group, obj, image(obj)]
            return obj

        def form(a, f):
            if a is None:
                return None
            if f == "list":
                return a.tolist()
            if f == "view":
                b = np.zeros((2,) + a.shape)
                b[1] = a
                return b[1]
            a = np.array(a)
            if f == "readonly":
                a.flags.writeable = False
            return a

        serial = [0]

        def table(i, f):
            serial[0] += 1
            al, Re, cl, cd, cm = gen.tables(plan["afs"][i])
            b = [hold("table", "airfoil %d table %s #%d" % (i, k, serial[0]), form(v, "array" if f == "list" and k in ("cl", "cd", "cm") else f)) for k, v in
                 zip(("alpha", "Re", "cl", "cd", "cm"), (al, Re, cl, cd, cm))]
            return b

        def mk_af(i, f):
            b = table(i, f)
            kw = {}
            if plan["xy"]:
                kw = {k: hold("own", "airfoil %d %s #%d" % (i, k, serial[0]), np.linspace(0, 1, 7)) for k in ("x", "y")}
            if plan["afs"][i]["cm"]:
                kw["cm"] = b[4]
            a = simaf.SimAF(*b[:4], **kw)
            return a

        def bad_af(t, f):
            """Tables that make no sense, or only some: whatever becomes of them, they stay as they were."""
            from ccblade.ccblade import CCAirfoil

            serial[0] += 1
            b = [np.array(v) for v in gen.tables(plan["afs"][t["i"]])]
            k, i, j = t["at"]
            h = t["how"]
            if h in ("nan", "inf", "nan cm"):
                a = b[4 if h == "nan cm" else k]
                a[i % a.shape[0], j % a.shape[1]] = np.nan if h != "inf" else np.inf
                if h == "nan cm" and i % 2:
                    a[i % a.shape[0] :] = np.nan
            elif h == "descending":
                b = [v[::-1] if n != 1 else v for n, v in enumerate(b)]
            elif h == "short":
                b[k] = b[k][:-1]
            elif h == "one":
                b = [v[:1] if n != 1 else v for n, v in enumerate(b)]
            else:
                b[1] = b[1][::-1]
            b = [hold("table", "odd table %s #%d" % (n, serial[0]), form(v, "array" if f == "list" else f)) for n, v in zip(("alpha", "Re", "cl", "cd", "cm"), b)]
            try:
                CCAirfoil(*b)
            except Exception:
                run.probe("tables refused")

        def bad_rotor(t, f):
            """Geometry that does not fit together: whatever becomes of it, it stays as it was."""
            serial[0] += 1
            arrs = gen.rotor_arrays(plan["rotor"])
            l = [afs[i % len(afs)] for i in plan["rotor"]["af"]]
            h = t["how"]
            if "airfoils" in h:
                l = l[:-1] if h[0] == "f" else l + l if h[0] == "m" else []
            else:
                v = arrs[t["k"]]
                v = np.linspace(0.0, 1.0, len(l)) if v is None else v
                arrs[t["k"]] = v[:-1] if h == "short" else np.append(v, v[-1]) if h == "long" else v[::-1] if h == "descending" else np.where(v == v[0], np.nan, v) if h == "nan" else v * 100.0 - 3.0
            arrs = {k: (None if v is None else hold("geom", "odd rotor %s #%d" % (k, serial[0]), form(np.array(v), f if k[:3] != "pre" or f != "list" else "array"))) for k, v in arrs.items()}
            arrs["af"] = hold("own", "odd airfoil list #%d" % serial[0], l)
            try:
                r = gen.make_rotor(plan["rotor"], afs, arrs)
                r.distributedAeroLoads(9.0, 8.0, 1.0, 0.0)
            except Exception:
                run.probe("geometry refused")

        def unsteady(q, f):
            serial[0] += 1
            al, Re, cl, cd, cm = gen.tables(q["spec"])
            af = afs[q["i"]]
            af.eval_unsteady(*[hold("own", "unsteady %s #%d" % (k, serial[0]), form(np.array(v), "array" if f == "list" else f)) for k, v in zip(("alpha", "cl", "cd", "cm"), (al, cl[:, 0], cd[:, 0], cm[:, 0]))])
            return {k: v for k, v in af.unsteady.items() if not isinstance(v, str)}

        def mk_rotor(f):
            serial[0] += 1
            arrs = {k: (None if v is None else hold("geom", "rotor %s #%d" % (k, serial[0]), form(v, f))) for k, v in gen.rotor_arrays(plan["rotor"]).items()}
            if f == "list":
                for k in ("precurve", "presweep"):
                    if arrs[k] is not None:
                        arrs[k] = hold("geom", "rotor %s #%d" % (k, serial[0]), np.array(arrs[k]))
            arrs["af"] = hold("own", "airfoil list #%d" % serial[0], [afs[i % len(afs)] for i in plan["rotor"]["af"]])
            return gen.make_rotor(plan["rotor"], afs, arrs)

        def mk_polars(f):
            serial[0] += 1
            ps = []
            from ccblade.airfoilprep import Airfoil, Polar

            for i, p in enumerate(plan["pols"]):
                b = [hold("polar", "polar %d %s #%d" % (i, k, serial[0]), form(v, f)) for k, v in zip(("alpha", "cl", "cd", "cm"), gen.polar_arrays(p))]
                ps.append(Polar(p["Re"], *b))
            l1 = hold("own", "polar list #%d" % serial[0], [ps[1], ps[0]])
            return ps, [Airfoil(l1), Airfoil(hold("own", "polar list b #%d" % serial[0], [ps[2]]))]

        def op(q, f, swap):
            """a rotor operation with the caller's condition arrays"""
            arrs = {}
            serial[0] += 1
            for k in ("U", "Om", "p"):
                if q["op"] == "eval" or (k == "U" and isinstance(q["U"], list)):
                    v = np.array(q[k])
                    arrs[k] = hold("cond", "condition %s #%d" % (k, serial[0]), form(v, "array" if q["op"] == "loads" and f == "list" else f))
            if q["op"] == "inverse":
                rotor.alpha = hold("own", "design alpha #%d" % serial[0], np.radians(np.array(q["al"])))
                c = np.zeros((2, len(q["al"])))
                for i in range(len(q["al"])):
                    c[0, i], c[1, i] = rotor.af[i].evaluate(rotor.alpha[i], 3e6)
                rotor.cl, rotor.cd = (hold("own", "design c%s #%d" % (k, serial[0]), v) for k, v in zip("ld", c))
                try:
                    rotor.inverse_analysis = True
                    if q["how"] == "eval":
                        rotor.evaluate(*[hold("cond", "condition %s #%d" % (k, serial[0]), form(np.array([q[k]]), f)) for k in ("U", "Om", "p")])
                    else:
                        rotor.distributedAeroLoads(q["U"], q["Om"], q["p"], 0.0)
                finally:
                    rotor.inverse_analysis = False
                return {"theta": np.array(rotor.theta, dtype=float)}
            return gen.do_op(rotor, q, arrs)

        def probe_afs():
            return [util.flat([a.evaluate(0.07, 3e6), a.derivatives(-0.11, 5e6), a.max_eff(2e6)]) for a in afs]

        def probe_pols():
            return [util.flat(gen.polar_data(p)) for p in pols]

        afs = [mk_af(i, "array") for i in range(len(plan["afs"]))]
        rotor = mk_rotor("array")
        pols, airs = mk_polars("array")
        kept = []
        theta0 = np.radians(np.array(plan["rotor"]["theta"]))
        want = iter(want)
        disturbed = checked = 0
        pa, pp = probe_afs(), probe_pols()
        for n, t in enumerate(plan["steps"]):
            kind, f = t["t"], t["form"]
            run.op(kind)
            run.steps += 1
            note = ""
            w = next(want) if kind in ("op", "afq", "pop") else None
            if kind == "reuse":
                cnt = 0
                for name, h in held.items():
                    if h[0] != "own" and t["what"] in (h[0], "all"):
                        o = h[1]
                        if isinstance(o, list):
                            o[:] = [9e9] * len(o)
                        elif isinstance(o, np.ndarray):
                            wr = o.flags.writeable
                            o.flags.writeable = True
                            if o.dtype.kind != "f":
                                o[...] = -777
                            else:
                                o[...] = {"garbage": -7.77e8, "nan": np.nan}.get(t["how"], 1.0) if t["how"] != "scale" else o * -3.5 + 1.0
                            o.flags.writeable = wr
                        cnt += 1
                        h[2] = image(o)
                run.fault("buffers overwritten by the caller", cnt)
                disturbed += cnt > 0
            else:
                res = err = None
                box = {}

                def go():
                    if kind == "af":
                        box["af"] = mk_af(t["i"], f)
                    elif kind == "rotor":
                        box["rotor"] = mk_rotor(f)
                    elif kind == "polars":
                        box["pols"] = mk_polars(f)
                    elif kind == "op":
                        return op(t["q"], f, t["swap"])
                    elif kind == "badaf":
                        bad_af(t, f)
                    elif kind == "badrotor":
                        bad_rotor(t, f)
                    elif kind == "afq" and t["q"]["q"] == "unsteady":
                        return unsteady(t["q"], f)
                    elif kind == "afq":
                        return gen.af_query(afs[t["q"]["i"]], t["q"])
                    elif kind == "pop":
                        al = t["q"].get("al")
                        if al is not None and al[0] == "of":
                            al = None
                        if al is not None:
                            serial[0] += 1
                            al = hold("cond", "common alpha #%d" % serial[0], form(np.array(al), f))
                        return gen.do_polar_op(pols, airs, t["q"], al)

                fired = False
                if "abort" in t:
                    fired, res, err, _, where = abort.run_with(REPO, t["abort"][0], t["abort"][1], go)
                    if fired:
                        note = "%s in %s" % (t["abort"][1], where)
                        run.fault("interrupt")
                else:
                    if "fail" in t:
                        simaf.ctl.reset()
                        simaf.ctl.raise_at = tuple(t["fail"])
                    try:
                        res = go()
                    except Exception as e:
                        err = e
                    if "fail" in t and simaf.ctl.fired is not None:
                        fired = True
                        note = "model error"
                        run.fault("model error")
                    simaf.ctl.reset()
                disturbed += fired
                if err is None and not fired:
                    if kind == "af":
                        afs[t["i"]] = box["af"]
                        rotor = mk_rotor(f)
                        pa = probe_afs()
                    elif kind == "rotor":
                        rotor = box["rotor"]
                    elif kind == "polars":
                        pols, airs = box["pols"]
                        pp = probe_pols()
                if kind in ("op", "afq", "pop") and not fired:
                    data = gen.polar_data(res) if kind == "pop" else res
                    got = ("ok", util.flat(data)) if err is None else ("exc", type(err).__name__)
                    if got[0] != w[0] or (got[0] == "exc" and got[1] != w[1]):
                        run.bad("answer", "step %d (%s): %s, with untouched buffers %s" % (n, kind, err if err is not None else "a result", w[1] if w[0] == "exc" else "a result"))
                    elif got[0] == "ok":
                        d = same(got[1], w[1])
                        if d:
                            run.bad("answer", "step %d (%s %s) differs from the answer with untouched buffers: %s" % (n, kind, t["q"].get("op", t["q"].get("k")), d))
                        kept.append((n, res if kind != "pop" else gen.polar_data(res), got[1]))
                        kept = kept[-10:]
                        note += util.sig_of(got[1])
                if kind == "op" and t["q"]["op"] == "inverse":
                    rotor.theta = hold("own", "assigned twist #%d" % serial[0], theta0.copy())
            run.ev(n, kind, f, note)
            run.sched += "%s %s %s;" % (kind, f, note.split(" in ")[-1] if " in " in note else "")
            for name, h in held.items():
                if image(h[1]) != h[2]:
                    run.bad("modified", "step %d (%s %s%s) modified the caller's %s" % (n, kind, t.get("q", {}).get("op", t.get("q", {}).get("k", "")), " interrupted" if "abort" in t else "", name))
                    h[2] = image(h[1])
            for i, (a, b) in enumerate(zip(probe_afs(), pa)):
                d = exact(a, b)
                if d:
                    run.bad("modified", "step %d (%s) changed airfoil %d: %s" % (n, kind, i, d))
                    pa = probe_afs()
            for i, (a, b) in enumerate(zip(probe_pols(), pp)):
                d = exact(a, b)
                if d:
                    run.bad("modified", "step %d (%s) changed polar %d: %s" % (n, kind, i, d))
                    pp = probe_pols()
            for j, raw, cp in kept:
                d = exact(util.flat(raw), cp)
                if d:
                    run.bad("result changed", "the result of step %d changed during step %d (%s): %s" % (j, n, kind, d))
            kept = [(j, raw, util.flat(raw)) for j, raw, _ in kept]
            checked += disturbed > 0
            if len(run.viol) > 3:
                break
        run.nontrivial = disturbed > 0 and checked >= 3
        run.probe("buffers watched", len(held))
        return run
