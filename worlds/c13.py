"""C13: a successful flap computation leaves no traces and touches no foreign files.  (see flap.py)"""
import os
from sim import util
from . import flap


class World(flap.Flap):
    ID = "C13"
    RULE = ("a run is 1-3 workers in a directory with files of others under similar names (other process ids, other modes, other suffixes), with failures in half of the runs; "
            "non-trivial: there was a foreign file and a computation ran over at least ten file operations")
    QUICK = {"runs": 1100, "wall": 60}
    report = ("foreign", "traces")

    def gen(self, rng, tier):
        ns = rng.choice([1, 1, 2, 3])
        a = flap.afs(rng, rng.choice([1, 2]))
        p0 = rng.choice([7, 12, 99, 4242])
        pids = [p0, p0 * 10 + 1, p0 + 1][:ns]
        modes = rng.choice([["single"], ["multi"], ["mpi"], ["multi", "mpi"]]) if ns == 1 else ["multi", "mpi"]
        slots, own = [], set()
        parent = rng.choice([1, 3, 5000, p0 - 1])  # of all workers; it may be one of these programs, too
        faulty = rng.random() < 0.5
        for i in range(ns):
            lives = []
            base = flap.call(rng, len(a), modes)
            for k in range(rng.choice([1, 1, 2])):
                life = {"pid": pids[i], "ppid": parent, "calls": []}
                for _ in range(rng.choice([1, 2, 3])):
                    c = flap.call(rng, len(a), modes) if rng.random() < 0.6 else dict(base)
                    if faulty and rng.random() < 0.25:
                        c["xfail"] = rng.choice(["missing", "crash", "exit1", "nosave", "partial", "noload", "lateexit", "empty"])
                    life["calls"].append(c)
                    own.update(flap.own_names(a[c["af"]]["name"], c, pids[i]))
                if faulty and rng.random() < 0.5:
                    at = rng.randint(1, 60)
                    life["faults"] = [rng.choice([["killgroup", at], ["killworker", at], ["err", at, rng.choice(flap.ERR), rng.choice([0, 1])], ["xkill", at, 50], ["torn", at, 5]])]
                elif rng.random() < 0.2:
                    life["faults"] = [["short", rng.randint(1, 40), rng.choice([1, 9])]]
                lives.append(life)
            slots.append({"lives": lives})
        names = []
        other = [p0 * 10, p0 + 2, int("1%d" % p0), p0 * 100 + 1, 1, 0, parent, parent, parent]
        c0 = slots[0]["lives"][0]["calls"][0]
        nm = a[c0["af"]]["name"]
        for _ in range(rng.choice([2, 5, 10, 16])):
            c = dict(rng.choice([c for s in slots for l in s["lives"] for c in l["calls"]]))
            x = rng.random()
            if x < 0.4:  # another process, another mode
                c["mode"] = rng.choice(["single", "multi"])
                cand = rng.choice(flap.own_names(nm, c, rng.choice(other)))
            elif x < 0.7:  # names around those of this process
                n = rng.choice(flap.own_names(nm, c, p0))
                cand = rng.choice([n + ".bak", n + "1", "1" + n, "old_" + n, n.replace(".", "_x."), n.upper() + "X", n.replace("_p%d" % p0, "_p%d1" % p0), n + "~", n + ".tmp", n + ".orig", "." + n, n + ".1", os.path.splitext(n)[0] + ".tmp", n.lower() if n.lower() != n else n + ".old"])
            else:
                cand = rng.choice(["polar.dat", "Polar.txt", "Polar.txt", "Polar_p%d.txt" % other[1], "Polar_p%d.txt" % p0, "Polar_p%d.txt" % parent, "NUL", "nul", "profilecoords.dat", "xfoil_input.txt", "xfoil.out", "%s.txt" % nm, "%s_Airfoil.txt" % nm, "%s_Airfoil_p%d.txt" % (nm, p0), "results.csv", "xfoil.def"])
            names.append([cand, "foreign %d\n" % len(names) * rng.choice([1, 50])])
        names = [x for x in {n: [n, t] for n, t in names}.values() if x[0] not in own]
        return {"afs": a, "slots": slots, "sched": flap.sched_list(rng, ns, rng.choice([5, 40, 120])), "ow": rng.choice(["Y", "N"]), "decoys": names, "stale": [], "sig": util.digest([a, slots, names])}

    def trivially(self, run, plan, slots):
        run.probe("foreign files in place", len(plan["decoys"]))
        return run.steps > 10 and bool(plan["decoys"])
