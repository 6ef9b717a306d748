"""C12: flap coordinates always come from this call's XFOIL run.  (see flap.py)"""
from sim import util
from . import flap

XF = ["missing", "crash", "exit1", "nosave", "partial", "noload", "lateexit", "empty"]


class World(flap.Flap):
    ID = "C12"
    RULE = ("a run is one or two workers, each with up to four lives under the same process id, making flap computations in single, multi or MPI mode over leftovers of all names the calls use, with failures of XFOIL, of file operations and kills; "
            "non-trivial: at least one fault fired or a leftover was in place")
    QUICK = {"runs": 1000, "wall": 60}
    report = ("errors",)

    def gen(self, rng, tier):
        ns = rng.choice([1, 1, 1, 2])
        a = flap.afs(rng, rng.choice([1, 2]))
        slots, stale = [], []
        for i in range(ns):
            pid = [31, 317][i] * rng.choice([1, 10])
            modes = [rng.choice(["single", "multi", "mpi"])] if ns == 1 or i == 0 else ["multi", "mpi"]
            if ns == 1 and rng.random() < 0.2:
                modes = ["single", "multi", "mpi"]
            base = flap.call(rng, len(a), modes)
            lives = []
            for k in range(rng.choice([1, 2, 2, 3, 4])):
                life = {"pid": pid, "calls": []}
                for _ in range(rng.choice([1, 1, 2, 3])):
                    c = flap.call(rng, len(a), modes)
                    if rng.random() < 0.7:
                        c["af"], c["df"] = base["af"], base["df"]
                    if rng.random() < 0.25:
                        c["xfail"] = rng.choice(XF)
                    life["calls"].append(c)
                x = rng.random()
                at = rng.randint(1, 60) if rng.random() < 0.7 else rng.randint(1, 150)
                f = None
                if x < 0.15:
                    f = ["killgroup", at]
                elif x < 0.25:
                    f = ["killworker", at]
                elif x < 0.45:
                    f = ["err", at, rng.choice(flap.ERR), 1]
                elif x < 0.55:
                    f = ["err", at, rng.choice(flap.ERR), 0]
                elif x < 0.62:
                    f = ["short", at, rng.choice([1, 7, 40])]
                elif x < 0.72:
                    f = ["xkill", at, rng.choice([0, 10, 200, 1500])]
                elif x < 0.8:
                    f = ["torn", at, rng.choice([0, 5, 60])]
                if f:
                    life["faults"] = [f]
                lives.append(life)
            slots.append({"lives": lives})
            if rng.random() < 0.5:
                for c in [c for l in lives for c in l["calls"]][:3]:
                    for n in flap.own_names(a[c["af"]]["name"], c, pid):
                        if rng.random() < 0.6:
                            stale.append([n, rng.choice(["short", "long", "garbage"])])
        stale = [list(x) for x in {n: (n, k) for n, k in stale}.values()]
        return {"afs": a, "slots": slots, "sched": flap.sched_list(rng, ns, rng.choice([5, 40])), "ow": rng.choice(["Y", "N"]), "decoys": [], "stale": stale, "sig": util.digest([a, slots, stale])}

    def trivially(self, run, plan, slots):
        if plan["stale"]:
            run.fault("leftover files", len(plan["stale"]))
        return run.steps > 10 and bool(run.faults)
