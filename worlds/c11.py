"""C11: parallel flap-geometry workers are isolated.  (see flap.py)"""
from sim import util
from . import flap
from .base import log_int


class World(flap.Flap):
    ID = "C11"
    RULE = ("a run is 2-4 worker processes with 1-2 calls each in one directory, similar process ids, mostly the same airfoil name and flap angle, interleaved at every file operation; some workers fail or are killed and restarted; "
            "non-trivial: at least three switches between workers in the middle of a computation")
    QUICK = {"runs": 1100, "wall": 60}
    report = ("isolated",)

    def gen(self, rng, tier):
        ns = rng.choice([2, 2, 3, 4])
        a = flap.afs(rng, rng.choice([1, 2, 3]))
        p0 = rng.choice([7, 12, 100, 4242])
        far = rng.choice([10000, 100000, 32768, 65536, 1000000, 1000])
        pids = rng.choice([[p0, p0 * 10 + 2, p0 * 10 + 3, p0 + 1], [p0, p0 + 1, p0 + 2, p0 + 3], [1000 + p0, p0, 100 * p0, 10 * p0 + 1], [p0 + far * i for i in range(4)], [70, 7, 700, 77]])[:ns]
        same = flap.call(rng, len(a))
        slots = []
        faulty = rng.randrange(ns) if rng.random() < 0.6 else None
        for i in range(ns):
            life = {"pid": pids[i], "calls": []}
            for _ in range(rng.choice([1, 1, 2])):
                c = flap.call(rng, len(a))
                if rng.random() < 0.6:
                    c["df"] = same["df"]
                if rng.random() < 0.3:
                    c["n"] = same["n"]
                life["calls"].append(c)
            lives = [life]
            if i == faulty:
                x = rng.random()
                at = rng.randint(1, 70)
                if x < 0.35:
                    life["faults"] = [["killgroup", at]]
                elif x < 0.55:
                    life["faults"] = [["killworker", at]]
                elif x < 0.7:
                    life["faults"] = [["err", at, rng.choice(flap.ERR), rng.choice([0, 1])]]
                elif x < 0.85:
                    life["calls"][0]["xfail"] = rng.choice(["crash", "exit1", "nosave", "partial", "missing", "empty"])
                else:
                    life["faults"] = [["xkill", at, rng.choice([0, 10, 200])]]
                if "killworker" not in str(life.get("faults")) and rng.random() < 0.7:
                    lives.append({"pid": pids[i] if rng.random() < 0.5 else pids[i] + 500, "calls": [flap.call(rng, len(a))]})
            slots.append({"lives": lives})
        return {"afs": a, "slots": slots, "sched": flap.sched_list(rng, ns, rng.choice([5, 20, 80, 200])), "ow": rng.choice(["Y", "N"]), "decoys": [], "stale": [], "sig": util.digest([a, slots])}

    def trivially(self, run, plan, slots):
        return run.faults.get("preemption", 0) >= 3
