"""C02: rotors analysed in parallel threads do not disturb each other.

Real threads, one running at a time; the preemption points (source lines of the code under test,
and its own locks) and the thread to go on with are the plan's.  Model: every thread
alone in a pristine process.
"""
import threading
import numpy as np
from sim import abort, gen, sched, simaf, util
from .base import REPO, Base, Run, build_site, log_int, same


class Fail(Exception):
    pass


class World(Base):
    ID = "C02"
    QUICK = {"runs": 1500, "wall": 60}
    THOROUGH = {"runs": 60000, "wall": 800}
    SHRINK = ("pts", "threads")
    RULE = ("a run is 2-4 threads with 1-3 operations each on rotors that share airfoils and arrays, with 1-400 preemptions and sometimes an error that kills one operation midway, or (25 %) with own OpenMDAO problems of the components; "
            "non-trivial: at least two switches happened while another thread was inside an operation")
    MEASURE = "distinct digests of the switch sequence (event number, from, to)"
    STUB = ["the choice of the thread that runs"]
    ASSUME = ["threads switch between source lines of /repo/ccblade and at its locks; a call into numpy, scipy or Fortran is atomic",
              "no rotor object is used by two threads at once"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2, 3])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        nt = rng.choice([2, 2, 2, 3, 4])
        base = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        threads = []
        om = rng.choice([["loads"], ["evaluate"], ["loads", "evaluate"], ["loads", "evaluate", "twist"]]) if rng.random() < 0.25 else []
        if om:
            nt = min(nt, 3)
        for t in range(nt):
            s = base if rng.random() < 0.3 else gen.rotor_spec(rng, naf, n=rng.choice([len(base["r"]), 3, 4]), small=True)
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append(gen.af_op(rng, naf, afs) if rng.random() < 0.2 else gen.rotor_op(rng, s, npts=1 if rng.random() < 0.7 else 2))
            if om:  # a problem of OpenMDAO with one component
                from . import comp

                k = rng.choice(om)
                d = comp.defaults(rng, k, 3)
                c = {"kind": k, "n": 3, "re": rng.choice([1, 2]), "tab": 1, "inverse": rng.random() < 0.6, "inn": False, "d": d}
                ops = []
                for _ in range(rng.randint(1, 3)):
                    ops.append({"op": rng.choice(["run", "run", "totals"]) if k != "twist" else "run"})
                    if rng.random() < 0.6:
                        a, b = comp.change(rng, k, d)
                        if a != "v":
                            d = dict(d, **{a: b})
                            ops[-1]["set"] = {a: b}
                threads.append({"comp": c, "ops": ops})
                continue
            th = {"rotor": s, "ops": ops, "inside": rng.random() < 0.5, "sharearr": rng.random() < 0.5}
            if rng.random() < 0.12:
                th["failat"] = log_int(rng, 5, 4000)
            threads.append(th)
        if not om and rng.random() < 0.15:  # all ask one airfoil the same thing at different Reynolds numbers
            i, q = rng.randrange(naf), rng.choice(["max_eff", "awayfromstall", "evaluate", "derivatives", "unsteady"])
            for th in threads:
                th["ops"] = [dict(gen.af_op(rng, naf, afs), i=i, q=q, spec=afs[i]) for _ in range(rng.randint(1, 3))]
                for o in th["ops"]:
                    if q == "derivatives" and isinstance(o["al"], list):
                        o["al"] = o["al"][0]
                    if q == "unsteady":
                        o["spec"] = gen.af_spec(rng)
        pts = gen.fpoints(rng, nt)
        if pts[0][0] < 0 and not om and rng.random() < 0.7:  # first use, by all at once, of something in the airfoils
            for th in threads:
                th.pop("failat", None)
                del th["ops"][1:]
            if rng.random() < 0.6:
                i, q = rng.randrange(naf), rng.choice(["derivatives", "derivatives", "evaluate", "max_eff", "awayfromstall"])
                for th in threads:
                    th["ops"] = [dict(gen.af_op(rng, naf, afs), i=i, q=q, spec=afs[i])]
                    if q == "derivatives" and isinstance(th["ops"][0]["al"], list):
                        th["ops"][0]["al"] = th["ops"][0]["al"][0]
                pts = [[-1, n, rng.randrange(nt)] for n in range(1, 60)] if rng.random() < 0.5 else [[-1, rng.randint(1, 25), rng.randrange(nt)] for _ in range(3)]
        return {"afs": afs, "threads": threads, "pts": pts, "hot": rng.random() < (0.15 if pts[0][0] < 0 else 0.5),
                "sig": util.digest([afs, threads])}

    def oracle(self, plan):
        return [{"afs": plan["afs"], "th": th} for th in plan["threads"]]

    def _arrays(self, th, pool):
        a = gen.rotor_arrays(th["rotor"])
        if th["sharearr"] and pool is not None:  # equal arrays are the same object in all threads
            for k, v in list(a.items()):
                if v is not None:
                    a[k] = pool.setdefault(v.tobytes(), v)
        return a

    def _comp(self, th):
        from . import comp

        c = th["comp"]
        p = comp.problem([c], False)
        comp.put(p, False, 0, comp.values(c, c["d"]))
        p.final_setup()
        box = {"res": [], "failed": 0}

        def body():
            for o in th["ops"]:
                comp.put(p, False, 0, {k: (np.array(v, dtype=float) if not isinstance(v, (bool, int)) else v) for k, v in o.get("set", {}).items()})
                p.run_model()
                r = comp.outs(p, 0, c["kind"])
                if o["op"] == "totals":
                    r = (r, comp.totals(p, False, 0, c["kind"], None))
                box["res"].append(util.flat(r))
            return box["res"]

        return body, box

    def _body(self, th, afs, pool, rotor=None):
        if "comp" in th:
            return self._comp(th)
        arrs = self._arrays(th, pool)
        if rotor is None and not th["inside"]:
            rotor = gen.make_rotor(th["rotor"], afs, arrs)
        box = {"rotor": rotor, "res": [], "failed": 0}

        def one(o):
            if o["op"] == "af":
                return gen.af_query(afs[o["i"]] if o["q"] != "unsteady" else gen.make_af(o["spec"]), o)  # (unsteady: kept in the airfoil, so one of its own)
            if box["rotor"] is None:
                box["rotor"] = gen.make_rotor(th["rotor"], afs, arrs)
            return gen.do_op(box["rotor"], o)

        def body():
            for o in th["ops"]:
                try:
                    r = one(o)
                except Fail:  # this thread's own trouble: it tries again
                    box["failed"] += 1
                    sched.rearm()
                    r = one(o)
                box["res"].append(util.flat(r))
            return box["res"]

        return body, box

    def answer(self, job):
        simaf.ctl.reset()
        afs = build_site(job)
        body, box = self._body(job["th"], afs, None)
        s = sched.Scheduler(REPO, [])
        out = s.run([body])[0]
        if out[0] == "exc":
            return ("exc", type(out[1]).__name__, s.ev)
        return ("ok", out[1], s.ev)

    def run(self, plan, want):
        run = Run()
        simaf.ctl.reset()
        afs = build_site(plan)
        pool = {}
        bodies = [self._body(th, afs, pool) for th in plan["threads"]]
        if plan["hot"]:  # not the first use of the airfoils
            for a in afs:
                a.evaluate(0.05, 2e6), a.derivatives(0.05, 2e6)
        total = sum(w[2] for w in want)
        s = sched.Scheduler(REPO, gen.resolve(plan["pts"], total))
        fails = {i: th["failat"] for i, th in enumerate(plan["threads"]) if "failat" in th}

        def hook(t, n):
            if fails.get(t) == n:
                del fails[t]
                run.fault("thread error")
                raise Fail("injected")

        s.hook = hook if fails else None
        outs = s.run([b for b, _ in bodies])
        run.steps = s.ev
        run.fault("preemption", len(s.switches))
        for t, (o, w) in enumerate(zip(outs, want)):
            run.op("thread")
            if o[0] == "exc":
                if isinstance(o[1], sched.Deadlock):
                    run.bad("no-progress", "thread %d: %s" % (t, o[1]))
                elif w[0] != "exc" or w[1] != type(o[1]).__name__:
                    run.bad("thread error", "thread %d ended with %r, alone it does not" % (t, o[1]))
                continue
            if w[0] == "exc":
                run.bad("thread error", "thread %d alone ends with %s, in parallel it does not" % (t, w[1]))
                continue
            for j, (g, x) in enumerate(zip(o[1], w[1])):
                d = same(g, x)
                if d:
                    run.bad("answer", "thread %d, operation %d (%s): %s" % (t, j, plan["threads"][t]["ops"][j]["op"], d))
                run.ev(t, j, util.sig_of(g))
        if threading.active_count() != 1:
            run.probe("threads left")
        run.sched = str(s.switches)
        run.ev("switches", util.digest(s.switches), s.ev)
        run.nontrivial = sum(1 for e, a, b in s.switches if s.state) >= 2
        return run
