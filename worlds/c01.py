"""C01: a rotor's answers do not depend on what was asked before.

History: operations on several rotors that share airfoils, some of them interrupted at an exact
line, some failing inside the airfoil model, results scribbled over, rotors dropped and rebuilt.
Model: each answer is that of a freshly built rotor with the twist in force, in a process that has
done nothing else.
"""
import copy
import numpy as np
from sim import abort, gen, simaf, util
from .base import REPO, Base, Run, build_site, exact, log_int, same


class World(Base):
    ID = "C01"
    QUICK = {"runs": 900, "wall": 60}
    THOROUGH = {"runs": 60000, "wall": 800}
    RULE = ("a run is a history of 4-14 (thorough: up to 40) operations over 2-3 rotors sharing 2-3 airfoils, with interruptions and model errors inside operations; "
            "non-trivial: at least two answers were compared after some operation had failed, been interrupted, solved for twist or been scribbled over")
    MEASURE = "distinct digests of the operation kinds, targets and the functions in which faults struck"
    STUB = ["airfoil model errors are raised by a subclass of CCAirfoil that otherwise calls the real one"]
    ASSUME = ["interruptions strike between source lines of /repo/ccblade; a call into numpy, scipy or the Fortran kernels is atomic",
              "twist after an interrupted inverse design is undefined until it is solved again or assigned"]

    def gen(self, rng, tier):
        naf = rng.choice([2, 3])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        rotors = [gen.rotor_spec(rng, naf, small=True) for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < 0.5:  # twins that differ in one setting only
            t = copy.deepcopy(rotors[0])
            k = rng.choice(["hubHt", "B", "usecd", "tiploss", "tilt", "theta", "chord", "af", "Rtip", "rho", "mu", "nSector"])
            t[k] = {"hubHt": t["hubHt"] + 7, "B": 5 - t["B"], "usecd": not t["usecd"], "tiploss": not t["tiploss"], "tilt": t["tilt"] + 3.0,
                    "theta": [x + 1.5 for x in t["theta"]], "chord": [x * 1.1 for x in t["chord"]], "af": [(x + 1) % naf for x in t["af"]], "Rtip": t["Rtip"] + 1.0, "rho": 1.03, "mu": 1.6e-5, "nSector": t["nSector"] + 3}[k]
            rotors[1] = t
        n = rng.randint(4, 14) if tier == "quick" or rng.random() < 0.7 else rng.randint(10, 40)
        ops, past, pastaf = [], [[] for _ in rotors], []
        pab, pfail, pscr = rng.choice([0, 0.15, 0.35]), rng.choice([0, 0.1, 0.3]), rng.choice([0, 0.2, 0.5])
        while len(ops) < n:
            k = rng.randrange(len(rotors))
            x = rng.random()
            if x < 0.12:
                o = gen.vary_af(rng, rng.choice(pastaf), naf, afs) if pastaf and rng.random() < 0.6 else gen.af_op(rng, naf, afs)
                pastaf.append(o)
                if rng.random() < 0.35:  # one question at several Reynolds numbers, margins or angles
                    for _ in range(rng.randint(2, 4)):
                        v = dict(o, **gen.pick(gen.af_op(rng, naf, afs), rng.choice([["Re"], ["Re"], ["Re", "m"], ["al"], ["cm"]])))
                        if not (isinstance(v["al"], list) and v["q"] != "evaluate"):
                            ops.append(v)
                o = dict(o)
                if rng.random() < pab * 0.6:
                    o["abort"] = [log_int(rng, 2, 300), rng.choice(["KeyboardInterrupt", "MemoryError"])]
                ops.append(o)
                continue
            if x < 0.18:
                ops.append({"op": "theta", "k": k, "v": [round(t + rng.uniform(-1, 1), 3) for t in rotors[k]["theta"]]})
                continue
            if x < 0.18 + 0.12 * pscr:
                ops.append({"op": "scribble", "j": rng.randrange(100)})
                continue
            if rng.random() < 0.05:  # short-lived rotors, one after another in reused memory
                r, q = copy.deepcopy(rotors[k]), gen.rotor_op(rng, rotors[k])
                for _ in range(rng.randint(2, 5)):
                    y = rng.choice(["theta", "chord", "r", "af", "spec", "spec", None])
                    if y == "theta":
                        r["theta"] = [round(t + 1.1, 4) for t in r["theta"]]
                    elif y == "chord":
                        r["chord"] = [round(t * 1.07, 4) for t in r["chord"]]
                    elif y == "af":
                        r["af"] = [(i + 1) % naf for i in r["af"]]
                    elif y == "spec":
                        v = gen.af_spec(rng)
                        m = rng.randrange(naf)
                        afs2 = ops[-1]["afs"] if ops and ops[-1]["op"] == "temp" else afs
                        ops.append({"op": "temp", "rotor": copy.deepcopy(r), "afs": [v if i == m else a for i, a in enumerate(afs2)], "q": dict(q)})
                        continue
                    ops.append({"op": "temp", "rotor": copy.deepcopy(r), "afs": afs, "q": dict(q)})
                continue
            if x < 0.23 + 0.12 * pscr:
                ops.append({"op": "rebuild", "k": k, "afs": rng.random() < 0.5})
                continue
            if past[k] and rng.random() < 0.55:
                o = gen.vary(rng, past[k][-1] if rng.random() < 0.6 else rng.choice(past[k]), rotors[k])
            else:
                o = gen.rotor_op(rng, rotors[k])
            o["k"] = k
            past[k].append(copy.deepcopy(o))
            if rng.random() < 0.04:  # a call that cannot succeed
                o["bad"] = [rng.choice(["U", "Om", "p"] + (["az"] if o["op"] == "loads" else [])), rng.choice(["x", None, []])]
            elif rng.random() < pab:
                o["abort"] = [log_int(rng, 3, 6000), rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])]
            elif rng.random() < pfail:
                o["fail"] = [rng.choice(["ValueError", "ZeroDivisionError", "RuntimeError", "FloatingPointError"]), "e", log_int(rng, 1, 300)]
            ops.append(o)
            if o["op"] == "inverse" and ("abort" in o or "fail" in o or "bad" in o):
                if rng.random() < 0.5:
                    ops.append({"op": "theta", "k": k, "v": rotors[k]["theta"]})
                else:
                    ops.append({**{a: b for a, b in o.items() if a not in ("abort", "fail", "bad")}, **({"al": [v + 0.5 for v in o["al"]]} if rng.random() < 0.5 else {})})
            if o["op"] == "inverse" and rng.random() < 0.7:
                q = gen.rotor_op(rng, rotors[k], inverse=False)
                ops.append(dict(q, k=k))
        return {"afs": afs, "rotors": rotors, "ops": ops, "sig": util.digest([afs, rotors, [o["op"] for o in ops]])}

    # the model: which twist is in force before each operation
    def _states(self, plan):
        cur = [None] * len(plan["rotors"])
        for o in plan["ops"]:
            k = o.get("k")
            yield o, (cur[k] if k is not None else None)
            if o["op"] == "theta":
                cur[k] = {"theta": o["v"]}
            elif o["op"] == "rebuild":
                cur[k] = None
            elif o["op"] == "inverse":
                cur[k] = {"undefined": 1} if ("abort" in o or "fail" in o or "bad" in o) else {"inverse": {a: b for a, b in o.items() if a != "k"}}

    def oracle(self, plan):
        jobs = []
        for o, st in self._states(plan):
            if o["op"] == "af":
                jobs.append({"af": plan["afs"][o["i"]], "q": o})
            elif o["op"] == "temp":
                jobs.append({"afs": o["afs"], "rotor": o["rotor"], "state": None, "q": o["q"]})
            elif o["op"] in ("eval", "loads", "inverse"):
                q = {a: b for a, b in o.items() if a not in ("abort", "fail", "k")}
                jobs.append({"afs": plan["afs"], "rotor": plan["rotors"][o["k"]], "state": st, "q": q})
        return jobs

    def answer(self, job):
        simaf.ctl.reset()
        if "af" in job:
            return util.flat(gen.af_query(gen.make_af(job["af"], cls=simaf.SimAF), job["q"]))
        st = job["state"]
        if st and "undefined" in st and job["q"]["op"] != "inverse":
            return None
        r = gen.make_rotor(job["rotor"], build_site(job))
        if st and "theta" in st:
            r.theta = np.radians(np.array(st["theta"]))
        if st and "inverse" in st and job["q"]["op"] != "inverse":
            gen.do_op(r, st["inverse"])
        out = util.outcome(gen.do_op, r, job["q"])
        return out if out[0] == "ok" else ("exc", out[1])

    def run(self, plan, want):
        run = Run()
        simaf.ctl.reset()
        afs = build_site(plan)
        rotors = [gen.make_rotor(s, afs) for s in plan["rotors"]]
        kept = []  # (op number, raw result, flat copy)
        want = iter(want)
        disturbed = compared = 0
        for n, (o, st) in enumerate(self._states(plan)):
            kind = o["op"]
            run.op(kind)
            run.steps += 1
            c = simaf.ctl
            c.reset()
            note = ""
            if kind == "theta":
                rotors[o["k"]].theta = np.radians(np.array(o["v"]))
            elif kind == "rebuild":
                if o["afs"]:
                    afs = build_site(plan)
                rotors[o["k"]] = None
                rotors[o["k"]] = gen.make_rotor(plan["rotors"][o["k"]], afs)
            elif kind == "scribble":
                if kept:
                    j, raw, _ = kept[o["j"] % len(kept)]
                    if isinstance(raw, dict) and "theta" in raw:
                        continue  # this one belongs to the rotor
                    scribble(raw)
                    kept[o["j"] % len(kept)] = (j, raw, util.flat(raw))
                    run.fault("scribble")
                    disturbed += 1
            else:
                w = next(want)
                fn = (lambda: gen.af_query(afs[o["i"]], o)) if kind == "af" else (lambda: gen.do_op(gen.make_rotor(o["rotor"], build_site(o)), o["q"])) if kind == "temp" else (lambda: gen.do_op(rotors[o["k"]], o))
                fired = False
                raw = err = None
                if "abort" in o:
                    fired, raw, err, exc, where = abort.run_with(REPO, o["abort"][0], o["abort"][1], fn)
                    if fired:
                        note = "%s in %s" % (o["abort"][1], where)
                        run.fault("interrupt " + o["abort"][1])
                else:
                    if "fail" in o:
                        c.raise_at = tuple(o["fail"])
                    try:
                        raw = fn()
                    except Exception as e:
                        err = e
                    if c.fired is not None:
                        fired = True
                        note = "model error " + o["fail"][0]
                        run.fault("model error")
                    c.reset()
                if fired:
                    disturbed += 1
                elif w is not None:
                    if kind != "af":
                        w = w if w[0] == "exc" else ("ok", w[1])
                    else:
                        w = ("ok", w)
                    got = ("exc", type(err).__name__) if err is not None else ("ok", util.flat(raw))
                    if got[0] != w[0] or (got[0] == "exc" and got[1] != w[1]):
                        run.bad("answer", "operation %d (%s): %s, a fresh rotor: %s" % (n, kind, got[0] + " " + str(got[1])[:80] if got[0] == "exc" else "a result", w[0] + " " + str(w[1])[:80] if w[0] == "exc" else "a result"))
                    elif got[0] == "ok":
                        d = same(got[1], w[1])
                        if d:
                            run.bad("answer", "operation %d (%s on %s) differs from a fresh rotor: %s" % (n, kind, o.get("k", o.get("i")), d))
                        compared += disturbed > 0
                        note += " " + util.sig_of(got[1])
                if raw is not None and err is None:
                    kept.append((n, raw, util.flat(raw)))
                if kind == "inverse":
                    disturbed += 1
            run.ev(n, kind, o.get("k", o.get("i", "")), note)
            run.sched += "%s%s%s;" % (kind, o.get("k", ""), note.split(" in ")[-1] if " in " in note else "")
            for j, raw, cp in kept:
                d = exact(util.flat(raw), cp)
                if d:
                    run.bad("result changed", "the result of operation %d changed during operation %d (%s): %s" % (j, n, kind, d))
            kept = [(j, raw, cp) for j, raw, cp in kept][-12:]
            if len(run.viol) > 3:
                break
        run.nontrivial = compared >= 2
        run.probe("answers compared after a disturbance", compared)
        return run


def scribble(x):
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
        x[...] = 1.25e17
