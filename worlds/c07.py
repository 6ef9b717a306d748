"""C07: airfoil preprocessing leaves operands intact and is repeatable.

Histories of preprocessing operations over shared polars and airfoils (airfoils share polar objects),
also on results of earlier operations, some failing, some interrupted at an exact line, results
scribbled over; then several threads operate on the same operands under the simulated scheduler.
Model: the same operation on freshly made operands in a pristine process.
"""
import copy
import numpy as np
from sim import abort, gen, sched, util
from .base import REPO, Base, Run, exact, log_int


def vandalise(x):
    """What a careless caller may do to an object that was handed to him."""
    if hasattr(x, "polars"):
        for p in x.polars:
            vandalise(p)
        x.polars.clear() if isinstance(x.polars, list) else None
    elif hasattr(x, "cl"):
        for k in ("alpha", "cl", "cd", "cm"):
            a = getattr(x, k)
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = -3.3e33
        x.Re = -5.0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = -3.3e33
    elif isinstance(x, (tuple, list)):
        for v in x:
            vandalise(v)


class World(Base):
    ID = "C07"
    QUICK = {"runs": 1400, "wall": 60}
    THOROUGH = {"runs": 150000, "wall": 800}
    SHRINK = ("ops", "pts", "threads", "parade")
    RULE = ("a run is 3-14 operations on 3 polars, 2-3 airfoils that share them, and on earlier results, with failures, interruptions and vandalised results, followed (60 %) by 2-3 threads on the same operands and (40 %) by a parade of short-lived polars and airfoils in reused memory; "
            "non-trivial: at least one operation failed, was interrupted, vandalised or preempted, and at least two results were compared after")
    MEASURE = "distinct digests of operations, functions struck and thread switches"
    STUB = ["the choice of the thread that runs"]
    ASSUME = ["interruptions and thread switches happen between source lines of /repo/ccblade"]

    def gen(self, rng, tier):
        pols = [gen.polar_spec(rng) for _ in range(3)]
        for p in pols:
            if rng.random() < 0.15:
                gen.odd_polar(rng, p)
        if rng.random() < 0.2:  # the same angles
            for k in ("lo", "hi", "n", "j"):
                pols[1][k] = pols[0][k]
        if rng.random() < 0.3:
            pols[1]["Re"] = pols[0]["Re"]
        airs = [[0, 1], [2], [1, 2, 0]][: rng.choice([2, 3])]
        ops = []
        npol, nair = 3, len(airs)
        kinds = []  # of results, so that later operations can use them
        for _ in range(rng.randint(3, 14)):
            o = gen.polar_op(rng, npol, nair)
            if rng.random() < 0.25:
                o["abort"] = [log_int(rng, 1, 400), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            elif rng.random() < 0.35:
                o["vandal"] = True
            elif rng.random() < 0.25 and o["k"] in ("blend", "corr", "ext", "get", "common") and not isinstance(o.get("w"), str) and not isinstance(o.get("cdmax"), str) and not (o["k"] == "corr" and 500 in o["a"]):
                o["keep"] = True  # becomes an operand
                if o["on"] == "p" or o["k"] == "get":
                    npol += 1
                else:
                    nair += 1
            ops.append(o)
        threads = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([2, 2, 3])):
                threads.append([gen.polar_op(rng, 3, len(airs)) for _ in range(rng.randint(1, 3))])
            if rng.random() < 0.3:  # all the same, in other words
                o = rng.choice(threads[0])
                for th in threads[1:]:
                    for j in range(len(th)):
                        while th[j]["k"] != o["k"] or th[j]["on"] != o["on"]:
                            th[j] = gen.polar_op(rng, 3, len(airs))
                        if rng.random() < 0.5:
                            th[j]["i"] = o["i"]
        parade = []  # one after another made, used and dropped: a later one may live where an earlier one lived
        if rng.random() < 0.4:
            o = gen.polar_op(rng, 2, 1)
            two = [gen.polar_spec(rng) for _ in range(2)]
            for _ in range(rng.randint(3, 8)):
                if rng.random() < 0.7:
                    for p in two:
                        d = rng.choice([-2, -1, 1, 2])
                        p = p.update(lo=max(-180, p["lo"] + d), hi=min(180, p["hi"] + d)) if rng.random() < 0.5 else p.update(slope=round(p["slope"] * rng.uniform(0.9, 1.1), 5), cd0=round(p["cd0"] * 1.1, 6), Re=p["Re"] * rng.choice([1, 1.5]))
                if rng.random() < 0.3:
                    o = gen.polar_op(rng, 2, 1)
                parade.append({"pols": copy.deepcopy(two), "o": o})
        return {"parade": parade, "pols": pols, "airs": airs, "ops": ops, "threads": threads, "pts": gen.fpoints(rng, max(1, len(threads))), "sig": util.digest([pols, airs])}

    def _site(self, plan):
        from ccblade.airfoilprep import Airfoil

        pols = [gen.make_polar(p) for p in plan["pols"]]
        return pols, [Airfoil([pols[i] for i in a]) for a in plan["airs"]]

    def _apply(self, pols, airs, o):
        """The operation; an operand that does not exist (minimised plans) counts as an error."""
        res = gen.do_polar_op(pols, airs, o)
        return res

    def oracle(self, plan):
        jobs, chain = [], []
        for o in plan["ops"]:
            jobs.append({"pols": plan["pols"], "airs": plan["airs"], "chain": list(chain), "o": o})
            if o.get("keep"):
                chain.append(o)
        for th in plan["threads"]:
            for o in th:
                jobs.append({"pols": plan["pols"], "airs": plan["airs"], "chain": [], "o": o})
        for x in plan["parade"]:
            jobs.append({"pols": x["pols"], "airs": [[0, 1]], "chain": [], "o": x["o"]})
        return jobs

    def answer(self, job):
        pols, airs = self._site(job)
        for c in job["chain"]:
            try:
                r = self._apply(pols, airs, c)
            except Exception:
                r = None
            (airs if hasattr(r, "polars") else pols).append(r) if r is not None else None
        with abort.Injected(REPO, None, None) as t:
            out = util.outcome(lambda: gen.polar_data(self._apply(pols, airs, job["o"])))
        return (out if out[0] == "ok" else ("exc", out[1]), t.count)

    def run(self, plan, want):
        run = Run()
        pols, airs = self._site(plan)
        want = list(want)
        data = lambda: [util.flat(gen.polar_data(x)) for x in pols + airs]
        names = lambda: ["polar %d" % i for i in range(len(pols))] + ["airfoil %d" % i for i in range(len(airs))]
        before = data()
        kept = []
        disturbed = compared = 0

        def check_operands(n, what):
            nonlocal before
            for nm, a, b in zip(names(), data(), before):
                d = exact(a, b) or exact(b, a)
                if d:
                    run.bad("operand changed", "%s %s changed %s: %s" % (n, what, nm, d))
            before = data()
            for m, raw, cp in kept:
                d = exact(util.flat(gen.polar_data(raw)), cp)
                if d:
                    run.bad("result changed", "%s %s changed the result of operation %s: %s" % (n, what, m, d))
            kept[:] = [(m, raw, util.flat(gen.polar_data(raw))) for m, raw, _ in kept][-6:]

        def compare(n, o, out, w):
            nonlocal compared
            if out[0] != w[0] or (out[0] == "exc" and out[1] != w[1]):
                run.bad("result", "%s (%s): %s, on fresh operands %s" % (n, o["k"], out[1] if out[0] == "exc" else "a result", w[1] if w[0] == "exc" else "a result"))
                return
            if out[0] == "ok":
                d = util.differ(out[1], w[1], 1e-9)
                if d:
                    run.bad("result", "%s (%s on %s%d) differs from the result on fresh operands: %s" % (n, o["k"], o["on"], o["i"], d))
                compared += disturbed > 0
                run.ev(n, util.sig_of(out[1]))
            else:
                run.probe("operation that fails anyway")
                run.ev(n, out[1])

        for n, o in enumerate(plan["ops"]):
            w = want[n][0]
            run.op(o["k"])
            run.steps += 1
            box = {}

            def go():
                box["r"] = self._apply(pols, airs, o)

            note = ""
            if "abort" in o:
                lines = want[n][1]
                at = 1 + (o["abort"][0] * 7919) % max(1, lines) if o["abort"][0] > lines else o["abort"][0]
                fired, _, err, exc, where = abort.run_with(REPO, at, o["abort"][1], go)
                if fired:
                    run.fault("interrupt")
                    disturbed += 1
                    note = where
                    if err is None:
                        run.bad("absorbed", "operation %d (%s): %s in %s was absorbed" % (n, o["k"], o["abort"][1], where))
                    check_operands("operation %d" % n, o["k"] + " interrupted in " + str(where))
                    run.sched += "%s!%s;" % (o["k"], where)
                    run.ev(n, o["k"], o["on"], o["i"], note)
                    # and again, without the interruption
                    out = util.outcome(lambda: gen.polar_data(self._apply(pols, airs, o)))
                    compare("operation %d after its interruption" % n, o, out if out[0] == "ok" else out[:2], w)
                    check_operands("operation %d" % n, o["k"])
                    continue
            out = util.outcome(lambda: (go(), gen.polar_data(box["r"]))[1])
            if out[0] == "exc":
                disturbed += 1
                run.fault("failing operation")
            compare("operation %d" % n, o, out if out[0] == "ok" else out[:2], w)
            check_operands("operation %d" % n, o["k"])
            if out[0] == "ok":
                if o.get("vandal"):
                    vandalise(box["r"])
                    run.fault("result vandalised")
                    disturbed += 1
                    check_operands("vandalising the result of operation %d" % n, o["k"])
                elif o.get("keep"):
                    (airs if hasattr(box["r"], "polars") else pols).append(box["r"])
                    before = data()
                else:
                    kept.append((n, box["r"], out[1]))
            run.sched += "%s%s%d;" % (o["k"], o["on"], o["i"])
            run.ev(n, o["k"], o["on"], o["i"], out[0])
            if len(run.viol) > 3:
                return run
        if plan["threads"]:
            tw = want[len(plan["ops"]) : len(want) - len(plan["parade"])]
            total = sum(t[1] for t in tw)
            s = sched.Scheduler(REPO, gen.resolve(plan["pts"], total))

            def body(th):
                def go():
                    res = []
                    for o in th:
                        res.append(util.outcome(lambda: gen.polar_data(self._apply(pols, airs, o))))
                        sched.rearm()
                    return res

                return go

            outs = s.run([body(th) for th in plan["threads"]])
            run.fault("preemption", len(s.switches))
            disturbed += len(s.switches) > len(plan["threads"])
            i = 0
            for t, (th, out) in enumerate(zip(plan["threads"], outs)):
                if out[0] == "exc":
                    run.bad("no-progress" if isinstance(out[1], sched.Deadlock) else "result", "thread %d ended with %r" % (t, out[1]))
                    i += len(th)
                    continue
                for o, r in zip(th, out[1]):
                    compare("thread %d" % t, o, r if r[0] == "ok" else r[:2], tw[i][0])
                    i += 1
            check_operands("the threads", "")
            run.sched += str(s.switches)
            run.steps += s.ev
        for n, (x, w) in enumerate(zip(plan["parade"], want[len(want) - len(plan["parade"]):])):
            run.op("parade")
            out = util.outcome(lambda: gen.polar_data(self._apply(*self._site(dict(x, airs=[[0, 1]])), x["o"])))
            compare("parade %d" % n, x["o"], out if out[0] == "ok" else out[:2], w[0])
            del out
        if plan["parade"]:
            check_operands("the parade", "")
        run.nontrivial = disturbed > 0 and compared >= 2
        return run
