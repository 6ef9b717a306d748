"""C19: copies and checkpoints.

A graph of rotor, airfoils, polars and a vector lives in a worker process; histories of questions,
interrupts, twist designs and copies (deep copies, pickles of every protocol, also taken by a handler in the middle of
an operation); copies or originals are wrecked; the process saves checkpoints, crashes at chosen points and a new
one goes on from the last checkpoint, doing again what was lost.  Model: every question on fresh
objects in a pristine process.
"""
import copy, pickle, sys
import numpy as np
from sim import abort, gen, procs, util
from .base import REPO, Base, Run, log_int, same
from . import c17


class Refused(Exception):
    pass


def build(plan):
    from ccblade.airfoilprep import Airfoil

    afs = [gen.make_af(a) for a in plan["afs"]]
    for i, a in enumerate(afs):
        if i % 2:
            a.x, a.y, a.AFName = np.linspace(1, 0, 5) ** 2, np.linspace(0, 0.1, 5), "section %d" % i
    pols = [gen.make_polar(p) for p in plan["pols"]]
    return {"afs": afs, "rot": gen.make_rotor(plan["rotor"], afs), "pols": pols, "airs": [Airfoil([pols[0], pols[1]])], "vec": c17.make(plan["vec"])}


def ask(g, q):
    w = q["w"]
    if w == "rotor":
        if q["op"] == "inverse":
            g["rot"].theta = np.array(g["rot"].theta)
        return gen.do_op(g["rot"], q)
    if w == "theta":
        g["rot"].theta = np.radians(np.array(q["v"]))
        return {}
    if w == "af":
        return gen.af_query(g["afs"][q["i"]], q)
    if w == "state":  # what the user finds on the object
        a = g["afs"][q["i"]]
        return {k: getattr(a, k, "absent") for k in ("x", "y", "AFName", "unsteady", "af_flap_xcoords", "af_flap_ycoords", "af_flap_ctrl")}
    if w == "flap":  # what af_flap_coords leaves behind
        a = g["afs"][q["i"]]
        a.af_flap_xcoords, a.af_flap_ycoords, a.af_flap_ctrl = np.array(q["v"]), np.array(q["v"]) / 3, q["v"][0]
        return {}
    if w == "afin":  # the same airfoil as the rotor holds it
        return g["rot"].af[q["i"]].evaluate(q["al"], q["Re"])
    if w == "pol":
        return gen.polar_data(gen.do_polar_op(g["pols"], g["airs"], q["o"]))
    if w == "vec":
        return c17.data(c17.apply(q, g["vec"], q.get("j")))
    raise ValueError(w)


def dup(g, how):
    return copy.deepcopy(g) if how == "deepcopy" else pickle.loads(pickle.dumps(g, int(how[-1])))


def wreck(g):
    """Everything in the graph that can be written to"""
    seen = set()

    def go(x, depth):
        if id(x) in seen or depth > 6:
            return
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind == "f":
                x[...] = -3.3e33
        elif isinstance(x, dict):
            for v in list(x.values()):
                go(v, depth + 1)
            if depth:
                x.clear()
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v, depth + 1)
            if isinstance(x, list):
                x.clear()
        elif hasattr(x, "__dict__") and not isinstance(x, type):
            for v in list(vars(x).values()):
                go(v, depth + 1)
            for k, v in list(vars(x).items()):
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    try:
                        setattr(x, k, -77)
                    except Exception:
                        pass

    go(g, 0)


def handler(state, req):
    if "load" in req:
        state["gs"] = [None if b is None else pickle.loads(b) for b in req["load"]]
        return None
    if "new" in req:
        state["gs"] = [build(req["new"])]
        return None
    gs = state["gs"]
    if "dump" in req:
        return [None if g is None else pickle.dumps(g, req["dump"]) for g in gs]
    o = req["op"]
    np.seterr(all="ignore")
    if o["k"] == "copy":
        gs.append(dup(gs[o["g"]], o["how"]))
        return None
    if o["k"] == "wreck":
        wreck(gs[o["g"]])
        gs[o["g"]] = None
        return None
    g, q, note = gs[o["g"]], o["q"], None
    if "abort" in o:
        fired, _, err, _, where = abort.run_with(REPO, 1 + int(o["abort"] * req["lines"]), "KeyboardInterrupt", lambda: ask(g, q))
        note = where if fired else None
        del err
    elif "mid" in o:
        n, got = [0], []
        at = 1 + int(o["mid"][0] * req["lines"])

        def trace(frame, event, arg):
            if event == "call":
                return trace if frame.f_code.co_filename.startswith(REPO + "/ccblade") else None
            if event == "line":
                n[0] += 1
                if n[0] == at:
                    try:
                        got.append(dup(g, o["mid"][1]))
                    except Exception as e:
                        got.append(e)
                    got.append(frame.f_code.co_name)
            return trace

        sys.settrace(trace)
        try:
            out = util.outcome(ask, g, q)[:2]
        finally:
            sys.settrace(None)
        if got and isinstance(got[0], Exception):
            raise got[0]
        gs.append(got[0] if got else dup(g, o["mid"][1]))
        return out, got[1] if got else None
    out = util.outcome(ask, g, q)
    return out[:2], note


class World(Base):
    ID = "C19"
    QUICK = {"runs": 1000, "wall": 50}
    THOROUGH = {"runs": 80000, "wall": 800}
    SHRINK = ("ops",)
    RULE = ("a run is 6-20 operations on a graph of a rotor, its airfoils, polars and a vector and on up to six copies of it, with interrupts, copies in the middle of operations, wrecked copies and originals, 1-3 checkpoints and 0-3 crashes; "
            "non-trivial: at least one crash, wreck, interrupt or copy in mid-operation, and at least two answers of copies were compared after")
    MEASURE = "distinct digests of the sequence of operations, points of copying and crashes"
    STUB = ["the program that saves and loads checkpoints"]
    ASSUME = ["a checkpoint is written completely (the caller's business)", "interrupts and copies happen between source lines of /repo/ccblade", "twist while an inverse design runs is undefined"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2, 3])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        pols = [gen.polar_spec(rng) for _ in range(2)]
        n = rng.choice([1, 3])
        vec = {"v": [[round(rng.uniform(-9, 9), 3) for _ in range(n)] for _ in range(3)], "kind": "array", "how": "ctor"}
        ops, alive, nxt = [], [0], 1
        for _ in range(rng.randint(6, 20)):
            x = rng.random()
            g = rng.choice(alive)
            if x < 0.14 and nxt < 6:
                ops.append({"k": "copy", "g": g, "how": rng.choice(["deepcopy", "deepcopy", "pickle0", "pickle2", "pickle4", "pickle5"])})
                alive.append(nxt)
                nxt += 1
                continue
            if x < 0.2 and len(alive) > 1:
                alive.remove(g)
                ops.append({"k": "wreck", "g": g})
                continue
            if x < 0.28:
                ops.append({"k": "checkpoint", "proto": rng.choice([2, 4, 5])})
                continue
            if x < 0.36:
                ops.append({"k": "crash"})
                continue
            y = rng.random()
            if y < 0.5:
                q = dict(gen.rotor_op(rng, s, npts=1), w="rotor")
            elif y < 0.58:
                q = {"w": "theta", "op": "theta", "v": [round(v + rng.uniform(-2, 2), 3) for v in s["theta"]]}
            elif y < 0.74:
                q = dict(gen.af_op(rng, naf, afs), w="af")
                if isinstance(q["al"], list) and q["q"] != "evaluate":
                    q["al"] = q["al"][0]
                if rng.random() < 0.5:
                    i = rng.randrange(naf)
                    q = rng.choice([{"w": "state", "op": "state", "i": i}, {"w": "state", "op": "state", "i": i}, {"w": "flap", "op": "flap", "i": i, "v": [round(rng.random(), 4) for _ in range(3)]},
                                    {"w": "af", "op": "unsteady", "i": i, "q": "unsteady", "spec": afs[rng.randrange(naf)]}])
                elif q["q"] == "unsteady":
                    q["op"] = "unsteady"
            elif y < 0.79:
                q = {"w": "afin", "op": "afin", "i": rng.randrange(len(s["r"])), "al": round(rng.uniform(-0.4, 0.4), 4), "Re": 3e6}
            elif y < 0.92:
                o = gen.polar_op(rng, 2, 1)
                q = {"w": "pol", "op": o["k"], "o": o}
            else:
                q = {"w": "vec", "op": "vec", "i": 0, "k": rng.choice(c17.ROT + ["neg", "mul", "airfoilToProfile"]), "a": round(rng.uniform(-180, 180), 2), "j": 1.5}
            o = {"k": "ask", "g": g, "q": q}
            z = rng.random()
            if q["op"] not in ("inverse", "theta", "flap", "unsteady"):
                if z < 0.15:
                    o["abort"] = round(rng.random(), 5)
                elif z < 0.35 and nxt < 6:
                    o["mid"] = [round(rng.random(), 5), rng.choice(["deepcopy", "pickle2", "pickle5"])]
                    alive.append(nxt)
                    nxt += 1
            ops.append(o)
        return {"afs": afs, "rotor": s, "pols": pols, "vec": vec, "ops": ops, "sig": util.digest([afs, s, pols, ops])}

    def walk(self, plan):
        """(operation, what its graph was told to remember) for what can be done; None for what a minimised plan made senseless"""
        th = {0: {}}
        n = 1
        self.names = {}  # operation -> number of the copy it makes
        for o in plan["ops"]:
            if o["k"] in ("checkpoint", "crash"):
                yield o, None
                continue
            if o["g"] not in th:
                if o["k"] == "copy" or "mid" in o:
                    n += 1
                yield None, None
                continue
            t = th[o["g"]]
            if o["k"] == "wreck":
                del th[o["g"]]
            elif o["k"] == "copy" or "mid" in o:
                th[n] = t
                self.names[id(o)] = n
                n += 1
            elif o["q"]["op"] in ("inverse", "theta"):
                th[o["g"]] = dict(t, twist=o["q"])
            elif o["q"]["op"] in ("unsteady", "flap"):
                th[o["g"]] = dict(t, **{"%s %d" % (o["q"]["op"], o["q"]["i"]): o["q"]})
            yield o, t

    def oracle(self, plan):
        k = {x: plan[x] for x in ("afs", "rotor", "pols", "vec")}
        jobs = []
        for o, t in self.walk(plan):
            if o is not None and o["k"] == "ask":
                q = o["q"]
                jobs.append(dict(k, q=q, past=[p for n, p in sorted(t.items()) if (n == "twist") == (q["w"] == "rotor") and (q["w"] == "rotor" or q["w"] == "state")]))
        return jobs

    def answer(self, job):
        np.seterr(all="ignore")
        g = build(job)
        for p in job["past"]:
            util.outcome(ask, g, p)
        with abort.Injected(REPO, None, None) as t:
            out = util.outcome(ask, g, job["q"])
        return out[:2], t.count

    def run(self, plan, want):
        run = Run()
        ncrash = sum(o["k"] == "crash" for o in plan["ops"])
        pool = [procs.Remote(handler) for _ in range(1 + ncrash)]
        w = pool.pop()
        self.call(w, {"new": plan})
        try:
            self.go(run, plan, want, w, pool)
        except Refused as e:
            run.bad("copy", str(e))
        except procs.Died:
            run.bad("no-progress", "the process ended")
        return run

    def go(self, run, plan, want, w, pool):
        saved, log = None, []  # the last checkpoint; what was done since
        want = iter(want)
        disturbed = compared = 0
        index = {0: 0}  # graph of the plan -> position in the worker
        npos = 1

        def again():
            """What was lost"""
            for req, exp, what in log:
                a = self.call(w, req)
                if exp is not None:
                    self.judge(run, what + ", again after a crash", a[0], exp)

        for o, t in self.walk(plan):
            if o is None:
                continue
            run.steps += 1
            if o["k"] == "checkpoint":
                saved, log = self.call(w, {"dump": o["proto"]}), []
                run.op("checkpoint")
                run.sched += "save;"
                continue
            if o["k"] == "crash":
                w.kill()
                w = pool.pop()
                self.call(w, {"new": plan} if saved is None else {"load": saved})
                run.fault("crash")
                disturbed += 1
                run.sched += "crash;"
                again()
                continue
            pos = index.get(o["g"])
            what = "operation %d (%s%s on copy %d)" % (run.steps, o["k"], "" if o["k"] != "ask" else " " + o["q"]["op"], o["g"])
            req = {"op": dict(o, g=pos)}
            run.op(o["k"] if o["k"] != "ask" else o["q"]["op"])
            if o["k"] == "ask":
                exp, lines = next(want)
                req["lines"] = lines
                a, note = self.call(w, req)
                if "abort" in o and note:
                    run.fault("interrupt")
                    disturbed += 1
                    exp = None
                else:
                    self.judge(run, what, a, exp)
                    compared += disturbed > 0 and o["g"] > 0
                if "mid" in o:
                    run.fault("copy in mid-operation" if note else "copy")
                    disturbed += 1
                run.sched += "%s %s;" % (o["q"]["op"], note or "")
                run.ev(what, note or "", util.sig_of(a[1]) if a[0] == "ok" else a[1])
                log.append((req, exp, what))
            else:
                self.call(w, req)
                log.append((req, None, what))
                if o["k"] == "wreck":
                    run.fault("wrecked")
                    disturbed += 1
                run.sched += o["k"] + ";"
                run.ev(what)
            if o["k"] == "copy" or "mid" in o:
                # names of copies are given in the order of the plan
                index[self.names[id(o)]] = npos
                npos += 1
            if len(run.viol) > 2:
                break
        run.nontrivial = disturbed > 0 and compared >= 2
        w.kill()
        for p in pool:
            p.kill()

    @staticmethod
    def call(w, req):
        r = w.call(req)
        if r[0] != "ok":
            o = req.get("op", {})
            raise Refused("%s: %s" % ({"dump": "saving a checkpoint", "load": "loading a checkpoint", "new": "building"}.get(next(iter(req)), "%s of copy %s" % (o.get("k"), o.get("g"))), r[1]))
        return r[1]

    @staticmethod
    def judge(run, what, out, exp):
        if out[0] != exp[0] or (out[0] == "exc" and out[1] != exp[1]):
            run.bad("answer", "%s: %s; fresh objects: %s" % (what, out[1] if out[0] == "exc" else "a result", exp[1] if exp[0] == "exc" else "a result"))
        elif out[0] == "ok":
            d = same(out[1], exp[1])
            if d:
                run.bad("answer", "%s differs from fresh objects: %s" % (what, d))
