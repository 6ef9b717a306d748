"""C21: concurrent work on airfoil files is isolated.

Several processes (gated at every file operation) or threads (switched at source lines) load, convert
and save airfoil files in one directory: they share sources and airfoil objects, and each writes files
of its own.  Some fail or are killed and restarted.  Model: the tables of the library operation alone.
"""
import errno, os, shutil, tempfile
import numpy as np
from sim import gen, sched, util
from sim.disk import Disk
from . import aero, flap
from .base import REPO, Base, Run, log_int

SRC = ["a0.dat", "a1.dat", "a2.dat"]
OUT = ["w%d/af.dat", "af_%d.dat", "w%d/a0.dat", "af.dat.%d", "w%d/af_3D.dat", "af%d_extrap.dat", "a0.dat%d", "w%d/out", "a1_3D%d.dat"]
PIDS = [7, 70, 77, 700, 8, 17, 107, 10007]


def strip_common(o):
    return dict(o, common=False)


class World(Base):
    ID = "C21"
    QUICK = {"runs": 1500, "wall": 50}
    THOROUGH = {"runs": 60000, "wall": 800}
    SHRINK = ("sched", "pts", "workers")
    RULE = ("a run is 2-4 processes (60 %, interleaved at every file operation, possibly one with an I/O error, a torn write or a kill and a restart) or 2-4 threads (switched at source lines, short transfers, at most one failing file operation) "
            "that load common sources in both ways, save common airfoils and run the command-line tool (processes) or conversions (threads), each into files of its own; non-trivial: at least three switches in the middle of an operation")
    MEASURE = "distinct digests of the sequence of (worker, file operation, path, verdict) or of the switches"
    STUB = ["process ids", "the choice of the process or thread that runs", "failing, short and torn file operations"]
    REAL = Base.REAL + ["the command-line tool, run as __main__ in processes of its own", "the file system below a scratch directory"]
    ASSUME = ["nobody reads a file while another one is writing it", "the command-line tool is not run in threads (it is a program)"]

    def gen(self, rng, tier):
        sp = [aero.spec(rng, rng.choice([1, 1, 2])) for _ in range(3)]
        mode = "procs" if rng.random() < 0.6 else "threads"
        nw = rng.choice([2, 2, 3, 4])
        ways = ["af", "cc"] if aero.smooth(*sp) else ["af"]
        pids = rng.sample(PIDS, nw)
        taken = set(SRC)
        workers = []
        pats = rng.sample(OUT, 4)
        for i in range(nw):
            ops, mine = [], []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.choice(["load", "save", "save", "cli", "conv", "own"])
                if k == "cli" and mode == "threads":
                    k = "conv"
                if k == "own" and not mine:
                    k = "save"
                o = {"op": k, "i": rng.randrange(3), "how": rng.choice(ways)}
                if k in ("save", "conv"):
                    o["out"] = rng.choice(mine) if mine and rng.random() < 0.2 else rng.choice(pats) % i
                if k in ("cli", "conv"):
                    c = aero.cli_op(rng, SRC)
                    if k == "conv":
                        c = strip_common(c)
                    out = aero.cli_out(c)
                    if k == "conv" or out in taken or "/" in out or c["out"] == c["src"]:
                        c["out"] = o.get("out") or rng.choice(pats) % i
                    o["c"], o["out"] = c, aero.cli_out(c)
                if k == "own":
                    o["out"] = rng.choice(mine)
                if "out" in o and o["out"] not in mine:
                    if o["out"] in taken:
                        continue
                    taken.add(o["out"])
                    mine.append(o["out"])
                ops.append(o)
            workers.append({"pid": pids[i], "ops": ops or [{"op": "load", "i": 0, "how": "af"}], "inst": rng.random() < 0.5})
        f = None
        if rng.random() < 0.5:
            f = rng.randrange(nw)
            k = rng.choice(["err", "err", "torn", "kill", "kill"]) if mode == "procs" else "err"
            at = log_int(rng, 1, 60)
            cls = rng.choice("orww")
            workers[f]["fault"] = [k, at, cls, rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"]) if k == "err" else rng.choice([0, 1, 30, 500, 5000])]
            workers[f]["again"] = rng.random() < 0.7
        old = rng.choice([[], [], [rng.choice(sorted(taken - set(SRC)) or ["x"])]])
        plan = {"mode": mode, "sp": sp, "workers": workers, "old": [o for o in old if o != "x"], "oldspec": aero.spec(rng, 1), "short": rng.choice([[0, 0], [200, 300], [64, 64], [1000, 700]]),
                "decoys": rng.sample(["a0.dat.tmp", "tmp.dat", "a0.dat~", ".a0.dat", "af.lock", "a0.dat.bak", "w0/readme", "a0.pkl", "a1.npz"], 3), "sig": util.digest([sp, workers])}
        if mode == "procs":
            plan["sched"], plan["pts"] = flap.sched_list(rng, nw, rng.choice([5, 20, 80, 200])), []
        else:
            plan["sched"], plan["pts"] = [], gen.fpoints(rng, nw)
        return plan

    def oracle(self, plan):
        jobs, seen = [], set()
        for w in plan["workers"]:
            for o in w["ops"]:
                if "c" in o:
                    c = {k: o["c"][k] for k in ("k", "src", "a")}
                    key = util.digest(c)
                    if key not in seen:
                        seen.add(key)
                        jobs.append({"key": key, "c": c, "sp": plan["sp"]})
        if plan["mode"] == "threads":
            jobs.append({"dry": {k: plan[k] for k in ("mode", "sp", "workers")}})
        return jobs

    def answer(self, job):
        if "dry" in job:  # how long they take one after the other
            p = job["dry"]
            d = tempfile.mkdtemp(dir=os.environ["SIM_SCRATCH"])
            try:
                os.chdir(d)
                for i in range(4):
                    os.mkdir("w%d" % i)
                afs = [gen.make_airfoil(s) for s in p["sp"]]
                for i, a in enumerate(afs):
                    a.writeToAerodynFile(SRC[i])
                s = sched.Scheduler(REPO, [])
                s.run([lambda w=w: self.steps(p, w, afs, lambda r: None) for w in p["workers"]])
                return ("dry", s.ev)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        c = job["c"]
        try:
            return (job["key"], aero.cli_lib(c, aero.expected(job["sp"][SRC.index(c["src"])]), aero.expected(job["sp"][SRC.index(c["a"][0])]) if c["k"] == "blend" else None))
        except Exception as e:
            return (job["key"], type(e).__name__)

    # ---- what a worker does
    def steps(self, plan, w, afs, report):
        """One function per operation; the result is reported"""
        from ccblade.airfoilprep import Airfoil

        def one(o):
            k = o["op"]
            if k == "load":
                return aero.load(SRC[o["i"]], o["how"])
            if k == "own":
                return aero.load(o["out"], o["how"])
            if k == "save":
                (afs[o["i"]] if plan["mode"] == "threads" or w["inst"] else gen.make_airfoil(plan["sp"][o["i"]])).writeToAerodynFile(o["out"])
            elif k == "cli":
                aero.cli(*aero.cli_args(o["c"]))
            else:
                c = o["c"]
                a = Airfoil.initFromAerodynFile(c["src"])
                if c["k"] == "stall3D":
                    r = a.correction3D(*[float(x) for x in c["a"]])
                elif c["k"] == "extrap":
                    r = a.extrapolate(float(c["a"][0]))
                else:
                    r = a.blend(Airfoil.initFromAerodynFile(c["a"][0]), float(c["a"][1]))
                r.writeToAerodynFile(o["out"])

        for j, o in enumerate(w["ops"]):
            err = res = None
            try:
                res = one(o)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
                if plan["mode"] == "threads":
                    sched.rearm()
            report(("op", j, err, res))

    def wants(self, plan, model):
        """For every operation the expected tables: None when it must fail (the library operation does)"""
        exp = [aero.expected(s) for s in plan["sp"]]
        al = []
        for w in plan["workers"]:
            have, l = {}, []
            for o in w["ops"]:
                k = o["op"]
                if k == "load":
                    e = exp[o["i"]]
                elif k == "own":
                    e = have.get(o["out"])
                elif k == "save":
                    e = have[o["out"]] = exp[o["i"]]
                else:
                    e = model[util.digest({x: o["c"][x] for x in ("k", "src", "a")})]
                    e = None if isinstance(e, str) else e
                    if e is not None:
                        have[o["out"]] = e
                l.append(e)
            al.append(l)
        return al

    def run(self, plan, want):
        run = Run()
        self.total = dict(want).get("dry", 1)
        wants = self.wants(plan, dict(want))
        # an operation the library refuses is left out, and what needs its file, too
        for w, l in zip(plan["workers"], wants):
            keep = [j for j in range(len(l)) if l[j] is not None]
            w["ops"] = [w["ops"][j] for j in keep]
            l[:] = [l[j] for j in keep]
            have = {}
            for j, o in enumerate(w["ops"]):
                if o["op"] in ("save", "cli", "conv"):
                    have[o["out"]] = l[j]
                elif o.get("how") == "cc":  # (equal Reynolds numbers after blending, odd data)
                    if not aero.fits(l[j]) or not np.isfinite(aero.cc_probe(aero.grid_of(l[j]))).all():
                        o["how"] = "af"
        self.wants_ = wants
        os.mkdir("work")
        os.chdir("work")
        for i in range(4):
            os.mkdir("w%d" % i)
        afs = [gen.make_airfoil(s) for s in plan["sp"]]
        for i, a in enumerate(afs):
            a.writeToAerodynFile(SRC[i])
        for n in plan["decoys"]:
            with open(n, "w") as f:
                f.write("1 2 3\nsomebody else's\n")
        for n in plan["old"]:
            gen.make_airfoil(plan["oldspec"]).writeToAerodynFile(n)
        self.before = {n: open(n, "rb").read() for n in listing()}
        self.outs = [{o["out"] for o in w["ops"] if "out" in o} for w in plan["workers"]]
        self.hit = [[] for _ in plan["workers"]]
        self.killed = [False] * len(plan["workers"])
        self.results = [[] for _ in plan["workers"]]
        objs = [util.flat(gen.polar_data(a)) for a in afs]
        (self.procs if plan["mode"] == "procs" else self.threads)(run, plan, afs)
        from .base import exact

        for i, (a, b) in enumerate(zip([util.flat(gen.polar_data(a)) for a in afs], objs)):
            if exact(a, b):
                run.bad("object changed", "airfoil %d: %s" % (i, exact(a, b)))
        self.judge(run, plan)
        run.nontrivial = run.faults.get("preemption", 0) >= 3
        return run

    def judge(self, run, plan):
        final = {n: open(n, "rb").read() for n in listing()}
        mine = set().union(*self.outs)
        for n, b in self.before.items():
            if n in mine:
                continue
            if n not in final:
                run.bad("foreign file", "%s is gone" % n)
            elif final[n] != b:
                run.bad("foreign file", "%s was changed" % n)
        quiet = not any(self.hit) and not any(self.killed)
        if quiet:
            rest = sorted(set(final) - set(self.before) - mine)
            if rest:
                run.bad("foreign file", "%s appeared" % rest)
        for i, w in enumerate(plan["workers"]):
            state = {n: ["old"] for n in self.outs[i]}  # which contents each of its files may have
            lives = self.results[i]
            for life, (res, dead, hits) in enumerate(lives):
                if not dead and len(res) < len(w["ops"]):
                    run.bad("no-progress", "worker %d ended after %d of %d operations" % (i, len(res), len(w["ops"])))
                failed = False
                for j, o in enumerate(w["ops"]):
                    exp = self.wants_[i][j]
                    r = res[j] if j < len(res) else None
                    what = "worker %d, operation %d (%s%s)" % (i, j, o["op"], " " + o["out"] if "out" in o else "")
                    touched = dead and j == len(res)
                    if r is None and not touched:
                        break
                    bad = [h for h in hits if h[0] == j]
                    if r is not None:
                        _, _, err, got = r
                        run.op(o["op"] + (" failed" if err else ""))
                        if err and not bad and not (o["op"] == "own" and "torn" in state[o["out"]]):
                            run.bad("error", "%s failed although nothing was wrong with it: %s" % (what, err))
                        if not err and o["op"] in ("load", "own"):
                            if o["op"] == "load" or "torn" not in state[o["out"]]:
                                d = aero.same_load(got, o["how"], exp if o["op"] == "load" else state[o["out"]][-1])
                                if d:
                                    run.bad("wrong data", "%s: %s" % (what, d))
                    if o["op"] in ("save", "cli", "conv"):
                        if r is not None and not r[2]:
                            state[o["out"]] = [exp]
                        else:
                            state[o["out"]] = state[o["out"]] + ["torn", exp]
            for n, st in state.items():
                # the file in the end
                if n not in final:
                    if st == ["old"] or "torn" in st:
                        continue
                    run.bad("wrong file", "%s of worker %d is not there" % (n, i))
                    continue
                if "old" in st and final[n] == self.before.get(n):
                    continue
                try:
                    got = aero.load(n, "af")
                except Exception as e:
                    if "torn" not in st:
                        run.bad("wrong file", "%s of worker %d does not load: %s" % (n, i, e))
                    continue
                ds = [aero.close(got, s) for s in st if not isinstance(s, str)]
                if None not in ds:
                    run.bad("wrong file", "%s of worker %d: %s" % (n, i, ds[-1] if ds else "nobody should have written it"))
                run.probe("files compared")

    def procs(self, run, plan, afs):
        from sim import gate

        g = gate.Gate(".", os.path.join(os.path.dirname(os.getcwd()), "s"))
        ws = [{"spec": w, "life": -1, "w": None} for w in plan["workers"]]
        events, pts = [], list(plan["sched"])
        cur, left = 0, 0

        def launch(s, i):
            s["life"] += 1
            if s["life"] > (1 if s["spec"].get("again") and s.get("struck") else 0):
                s["w"] = None
                return
            s["f"] = list(s["spec"]["fault"]) if s["life"] == 0 and s["spec"].get("fault") else None
            s["hits"] = []
            s["w"] = g.spawn(len(g.workers), lambda report: self.steps(plan, s["spec"], afs, report), s["spec"]["pid"] + 1000 * s["life"], {})
            run.op("process")

        try:
            for i, s in enumerate(ws):
                launch(s, i)
            while run.steps < 8000:
                g.settle()
                again = False
                for i, s in enumerate(ws):
                    w = s["w"]
                    if w is not None and w.gone:
                        for r in w.results:
                            if r[0] == "crash":
                                run.bad("no-progress", "worker %d ended with %s" % (i, r[1]))
                        dead = w.killed or any(h[1] == "torn" for h in s["hits"])
                        self.results[i].append(([r for r in w.results if r[0] == "op"], dead, s["hits"]))
                        launch(s, i)
                        again = True
                if again:
                    continue
                ready = [i for i, s in enumerate(ws) if s["w"] is not None and s["w"].pending is not None]
                if not ready:
                    break
                if left <= 0 or cur not in ready:
                    if pts:
                        left, c = pts.pop(0)
                        if ready[c % len(ready)] != cur:
                            run.fault("preemption")
                        cur = ready[c % len(ready)]
                    else:
                        left = 40
                        cur = ready[0] if cur not in ready else cur
                left -= 1
                s = ws[cur]
                w = s["w"]
                _, cls, n, own, path = w.pending
                w.nev += 1
                run.steps += 1
                f, verdict, arg, note = s["f"], "C", 0, ""
                if f and w.nev >= f[1] and (f[0] == "kill" or cls == (f[2] if f[0] == "err" else "w")):
                    s["f"] = None
                    s["struck"] = True
                    note = f[0]
                    if f[0] == "err":
                        verdict, arg = "E", getattr(errno, f[3])
                    elif f[0] == "torn":
                        verdict, arg = "X", f[3]
                    s["hits"].append((len(w.results), f[0]))
                    self.hit[cur].append(f[0])
                    run.fault({"err": "I/O error " + str(f[3]), "torn": "killed inside a write", "kill": "killed at a file operation"}[f[0]])
                elif cls in "rw" and plan["short"][cls == "w"]:
                    verdict, arg = "S", plan["short"][cls == "w"]
                if verdict in "CS" and not note and (cls in "unt" or (cls == "o" and (n & 3 or n & 8))):
                    for x in range(len(self.outs)):
                        if x != cur and path in self.outs[x]:
                            run.bad("foreign file", "worker %d touches %s of worker %d" % (cur, path, x))
                    if path in self.before and path not in self.outs[cur]:
                        run.bad("foreign file", "worker %d %s %s" % (cur, {"o": "opens for writing", "u": "removes", "n": "renames onto", "t": "truncates"}[cls], path))
                events.append("%d%s%s %s" % (cur, cls, path, note))
                if note == "kill":
                    self.killed[cur] = True
                    g.kill(w, True)
                else:
                    g.reply(w, verdict, arg)
            else:
                run.bad("no-progress", "still busy after %d file operations" % run.steps)
        except gate.Stuck as e:
            run.bad("no-progress", str(e))
        finally:
            g.close()
        run.sched = "\n".join(events)
        run.log += events[-200:]

    def threads(self, run, plan, afs):
        fw = next((w for w in plan["workers"] if w.get("fault")), None)
        faults = []
        if fw:
            f = fw["fault"]
            faults = [[f[2], f[1] if f[2] in "rw" else 1 + f[1] % 6, "E", f[3], 0]]
        bodies, res = [], [[] for _ in plan["workers"]]
        for i, w in enumerate(plan["workers"]):
            bodies.append(lambda i=i, w=w: self.steps(plan, w, afs, res[i].append))
        s = sched.Scheduler(REPO, gen.resolve(plan["pts"], self.total))
        d = Disk(".", faults, tuple(plan["short"]))
        with d:
            out = s.run(bodies)
        for i, o in enumerate(out):
            if o[0] == "exc":
                run.bad("no-progress", "thread %d ended with %s: %s" % (i, type(o[1]).__name__, o[1]))
        if s.deadlock:
            run.bad("no-progress", "the threads wait for each other")
        run.steps += s.ev
        run.op("thread", len(bodies))
        run.fault("preemption", len(s.switches))
        run.sched = str(s.switches)
        run.ev(s.ev, len(s.switches))
        for i, r in enumerate(res):
            hits = []
            if d.fired and d.fired[0]:  # one operation of one thread may have failed
                bad = [x[1] for x in r if x[2]]
                if bad and not any(self.hit):
                    hits = [(bad[0], "err")]
                    self.hit[i].append("err")
            self.results[i].append((r, False, hits))
        if d.fired and d.fired[0]:
            run.fault("I/O error %s (threads)" % faults[0][3])



def listing():
    return sorted(os.path.relpath(os.path.join(d, f), ".") for d, _, fs in os.walk(".") for f in fs)
