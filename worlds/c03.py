"""C03: failures and interrupts always reach the caller.

Faults: an error of any class from the airfoil model (its evaluation, its derivatives, or one of
its splines), or a KeyboardInterrupt / MemoryError / SystemExit at any source line of the call.
Checks: the call ends with the injected error; the same call on the same objects is right afterwards.
"""
from sim import abort, gen, simaf, util
from .base import REPO, Base, Run, build_site, same

CLASSES = [k for k in simaf.EXC]


class World(Base):
    ID = "C03"
    QUICK = {"runs": 1500, "wall": 50}
    THOROUGH = {"runs": 80000, "wall": 800}
    SHRINK = ("steps",)
    RULE = ("a run is 2-5 calls (load solves, evaluations, inverse designs, airfoil queries) on the same rotor and airfoils, each hit by one fault at a chosen model call, spline use or source line, "
            "and then repeated without fault; non-trivial: at least two faults fired")
    MEASURE = "distinct digests of (call kind, fault kind, error class, function struck)"
    STUB = ["faulty airfoil evaluations, derivatives and splines (wrappers that call the real ones when no fault is due)"]
    ASSUME = ["interruptions strike between source lines of /repo/ccblade"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 3, 4]), small=True, deriv=rng.random() < 0.6)
        steps = []
        for _ in range(rng.randint(2, 5)):
            q = gen.af_op(rng, naf, afs) if rng.random() < 0.3 else gen.rotor_op(rng, s, npts=1 if rng.random() < 0.8 else 2)
            x = rng.random()
            if q["op"] == "af" and rng.random() < 0.4:
                f = ["abort", round(1 - 10 ** rng.uniform(-2.8, -0.3), 6), rng.choice(["KeyboardInterrupt", "MemoryError"])]  # often near the end: the loops are long
            elif x < 0.45:
                f = ["abort", round(rng.random(), 6), rng.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt", "SystemExit"])]
            elif x < 0.65:
                f = ["e", round(rng.random(), 6), rng.choice(CLASSES)]
            elif x < 0.8:
                f = ["d", round(rng.random(), 6), rng.choice(CLASSES)]
            else:
                f = ["spline", round(rng.random(), 6), rng.choice(CLASSES)]
            steps.append({"q": q, "f": f})
        return {"afs": afs, "rotor": s, "steps": steps, "wrap": any(t["f"][0] == "spline" for t in steps), "sig": util.digest([afs, s, [t["q"] for t in steps]])}

    def oracle(self, plan):
        return [{"afs": plan["afs"], "rotor": plan["rotor"], "q": t["q"], "wrap": plan["wrap"]} for t in plan["steps"]]

    def _call(self, rotor, afs, q):
        if q["op"] == "af":
            return gen.af_query(afs[q["i"]], q)
        return gen.do_op(rotor, q)

    def _site(self, plan):
        simaf.ctl.reset()
        simaf.spl.reset()
        afs = build_site(plan)
        if plan["wrap"]:
            for a in afs:
                simaf.wrap_splines(a)
        return afs, gen.make_rotor(plan["rotor"], afs)

    def answer(self, job):
        afs, r = self._site(job)
        with abort.Injected(REPO, None, None) as t:
            out = util.outcome(self._call, r, afs, job["q"])
        return (out[:2] if out[0] == "ok" else ("exc", out[1]), t.count, simaf.ctl.n, simaf.ctl.nd, simaf.spl.n)

    def run(self, plan, want):
        run = Run()
        afs, rotor = self._site(plan)
        theta = rotor.theta.copy()
        fired_total = 0
        for n, (t, (w, lines, ne, nd, ns)) in enumerate(zip(plan["steps"], want)):
            q, (kind, frac, cls) = t["q"], t["f"]
            run.op(q["op"])
            run.steps += 1
            simaf.ctl.reset()
            simaf.spl.reset()
            fn = lambda: self._call(rotor, afs, q)
            err = None
            where = ""
            if kind == "abort":
                fired, _, err, exc, where = abort.run_with(REPO, 1 + int(frac * lines), cls, fn)
            else:
                if kind == "spline":
                    simaf.spl.raise_at = (cls, 1 + int(frac * ns))
                else:
                    cnt = ne if kind == "e" else nd
                    simaf.ctl.raise_at = (cls, kind, 1 + int(frac * cnt))
                try:
                    fn()
                except BaseException as e:  # noqa: B902
                    err = e
                exc = simaf.spl.fired if kind == "spline" else simaf.ctl.fired
                fired = exc is not None
            simaf.ctl.reset()
            simaf.spl.reset()
            if fired:
                fired_total += 1
                run.fault({"abort": "interrupt " + cls, "e": "model evaluation error", "d": "model derivative error", "spline": "spline error"}[kind])
                ok = err is exc or (err is not None and any(x is exc for x in util.chain(err)) and (isinstance(err, type(exc)) or cls == "StopIteration"))
                if err is None:
                    run.bad("absorbed", "step %d: %s during %s %s was absorbed, the call returned normally" % (n, cls, q["op"], where and "in " + where))
                elif not ok:
                    run.bad("replaced", "step %d: %s during %s %s reached the caller as %r" % (n, cls, q["op"], where and "in " + where, err))
            run.sched += "%s %s %s %s;" % (q["op"], kind, cls if fired else "-", where)
            run.ev(n, q["op"], kind, cls, "fired" if fired else "not reached", where or "")
            if q["op"] == "inverse":
                rotor.inverse_analysis = False
            elif t["f"] and any(s["q"]["op"] == "inverse" for s in plan["steps"][:n]):
                rotor.theta = theta.copy()
            got = util.outcome(fn)
            if q["op"] == "inverse":
                rotor.theta = theta.copy()
            if w[0] == "exc" or got[0] == "exc":
                if w[0] != got[0] or w[1] != got[1]:
                    run.bad("repetition", "step %d: %s again after the fault: %s instead of %s" % (n, q["op"], got[1] if got[0] == "exc" else "a result", w[1] if w[0] == "exc" else "a result"))
                continue
            d = same(got[1], w[1])
            if d:
                run.bad("repetition", "step %d: %s again after %s: %s" % (n, q["op"], cls, d))
            run.ev(util.sig_of(got[1]))
        run.nontrivial = fired_total >= 2
        return run
