"""Shared by C11, C12 and C13: processes computing flap coordinates in one directory.

A slot is a sequence of lives: a life is a process (with a simulated process id) that makes one or
more calls of af_flap_coords on its airfoils; when it ends or is killed, the slot's next life starts in what
is left.  XFOIL is a stub whose output is a function of what it was told.
"""
import errno, os, shutil, subprocess, tempfile
import numpy as np
from sim import gen, util
from .base import Base, Run, log_int

XFOIL = os.environ.get("SIM_XFOIL")
NAMES = ["NACA64", "DU21", "NACA64", "cylinder", "FFA-W3-211", "S809_x.1"]
ERR = ["ENOSPC", "EIO", "EACCES", "EMFILE"]


def outline(k, n=41):
    """Coordinates of the k-th airfoil"""
    t = np.linspace(0, 2 * np.pi, n)
    th = 0.08 + 0.03 * (k % 5)
    x = 0.5 * (1 + np.cos(t))
    return np.round(x, 6), np.round(th * np.sin(t) * (0.6 + 0.4 * x) + 0.01 * k * x * (1 - x), 6)


def call(rng, naf, multi=None):
    mode = rng.choice(["multi", "multi", "mpi"]) if multi is None else rng.choice(multi)
    return {"af": rng.randrange(naf), "df": rng.choice([0.0, 5.0, 12.0, 12.0, -8.5, 10, 7.37, 12.04, -0.125]), "xh": rng.choice([0.8, 0.7, 0.75, 0.7251]), "yt": rng.choice([0.5, 0.3, 0.45]), "n": rng.choice([30, 61, 120, 250, 250, 400]), "mode": mode}


def own_names(name, c, pid):
    """Names under which a call works in the pinned version: leftovers of these names belong to it"""
    if c["mode"] == "single":
        return ["profilecoords.dat", "%s_%s_Airfoil.txt" % (name, c["df"]), "xfoil_input.txt", "NUL"]
    return ["profilecoords_p%d.dat" % pid, "%s_%s_Airfoil_p%d.txt" % (name, c["df"], pid), "xfoil_input_p%d.txt" % pid, "NUL_%d" % pid]


def reference(af, c):
    """What XFOIL answers when it is told this call's data: a private run of the stub."""
    d = tempfile.mkdtemp(dir=os.environ["SIM_SCRATCH"])
    try:
        x, y = outline(af["k"], af["n"])
        np.savetxt(os.path.join(d, "c"), np.array([x, y]).T, fmt="%.9f")
        s = "PLOP\nG\n\nLOAD\nc\nx\nGDES\nFLAP\n%r\n999\n%r\n%s\nNAME\nx\nEXEC\n\nPPAR\nN\n%d\nT\n0.5\n\n\nPSAV\nout\n\n\nQUIT\n" % (c["xh"], c["yt"], c["df"], c["n"])
        env = {k: v for k, v in os.environ.items() if not k.startswith(("SIM", "LD_PRELOAD"))}
        p = subprocess.run([os.environ["SIM_XFOIL"]], input=s.encode(), cwd=d, stdout=subprocess.PIPE, env=env)
        if p.returncode:
            raise RuntimeError("the stub failed: " + p.stdout.decode()[-300:])
        return np.loadtxt(os.path.join(d, "out"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Flap(Base):
    QUICK = {"runs": 500, "wall": 45}
    THOROUGH = {"runs": 40000, "wall": 800}
    SHRINK = ("slots", "sched", "decoys")
    TIMEOUT = 60
    MEASURE = "distinct digests of the sequence of (worker, file operation, path, verdict)"
    STUB = ["XFOIL (native/xfoil.c): reads the same script, loads the same coordinate file, applies flap and panelling deterministically, saves a file in XFOIL's format", "process ids"]
    REAL = ["/repo/ccblade/ccblade.py af_flap_coords", "numpy", "the shell", "the file system below a scratch directory"]
    ASSUME = ["XFOIL behaves as the stub does: overwrites only when told so, exits non-zero when it crashes, saves nothing when it has no airfoil",
              "looking at a file (stat) does not fail; every other file operation may"]
    MODES = None
    report = ()

    def oracle(self, plan):
        seen, jobs = set(), []
        for s in plan["slots"]:
            for life in s["lives"]:
                for c in life["calls"]:
                    a = plan["afs"][c["af"]]
                    key = util.digest([a, c["df"], c["xh"], c["yt"], c["n"]])
                    if key not in seen:
                        seen.add(key)
                        jobs.append({"key": key, "af": a, "c": c})
        return jobs

    def answer(self, job):
        return (job["key"], reference(job["af"], job["c"]))

    def body(self, plan, life):
        from ccblade.ccblade import CCAirfoil

        def fn(report):
            afs = {}
            for c in life["calls"]:
                a = plan["afs"][c["af"]]
                af = afs.get(c["af"])
                if af is None:
                    x, y = outline(a["k"], a["n"])
                    af = afs[c["af"]] = CCAirfoil([-180.0, 0.0, 180.0], [1e6], np.zeros(3), np.zeros(3), x=x, y=y, AFName=a["name"])
                os.environ["SIMX_FAIL"] = c.get("xfail", "") if c.get("xfail") != "missing" else ""
                path = plan["xfoil"] if c.get("xfail") != "missing" else os.path.join(os.path.dirname(plan["xfoil"]), "no-such-xfoil")
                err = None
                try:
                    af.af_flap_coords(path, delta_flap=c["df"], xc_hinge=c["xh"], yt_hinge=c["yt"], numNodes=c["n"], multi_run=c["mode"] == "multi", MPI_run=c["mode"] == "mpi")
                except BaseException as e:  # noqa: B902
                    err = type(e).__name__ + ": " + str(e)
                get = lambda k: None if getattr(af, k, None) is None else np.array(getattr(af, k), dtype=float)
                report(("call", err, get("af_flap_xcoords"), get("af_flap_ycoords")))

        return fn

    def run(self, plan, want):
        from sim import gate

        run = Run()
        model = dict(want)
        os.mkdir("work")
        decoys = {}
        for n, text in plan["decoys"]:
            if "/" not in n:
                decoys[n] = text.encode()
                with open("work/" + n, "wb") as f:
                    f.write(decoys[n])
        stale = set()
        for n, kind in plan["stale"]:
            if n in decoys:
                continue
            stale.add(n)
            with open("work/" + n, "w") as f:
                f.write("0.111 0.222\n" * (7 if kind == "short" else 300) if kind != "garbage" else "rubbish\n")
        plan = dict(plan, xfoil=XFOIL)
        g = gate.Gate("work", os.path.join(os.getcwd(), "s"))
        old = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        slots = [{"spec": s, "life": -1, "w": None, "calls": [], "prev": {}} for s in plan["slots"]]
        owner = {}  # path -> simulated process id that made it
        events = []
        sched = list(plan["sched"])
        cur, left = 0, 0
        ok = True

        def launch(s):
            s["life"] += 1
            if s["life"] >= len(s["spec"]["lives"]):
                s["w"] = None
                return
            life = s["spec"]["lives"][s["life"]]
            s["f"] = list(life.get("faults", []))
            s["hit"] = []  # (call index, kind, own operation)
            s["before"] = set(os.listdir("work"))
            s["w"] = g.spawn(len(g.workers), self.body(plan, life), life["pid"], {"SIMX_OVERWRITE": plan["ow"], "SIMX_FAIL": ""}, life.get("ppid", 0))
            run.op("process")

        try:
            os.dup2(null, 1)
            for s in slots:
                launch(s)
            while run.steps < 6000:
                ready = g.settle()
                again = False
                for i, s in enumerate(slots):
                    w = s["w"]
                    if w is not None and w.gone:
                        self.judge(run, plan, model, i, s, w, ok)
                        launch(s)
                        again = True
                if again:
                    continue
                ready = [i for i, s in enumerate(slots) if s["w"] is not None and s["w"].pending is not None]
                if not ready:
                    break
                if left <= 0 or cur not in ready:
                    if sched:
                        left, c = sched.pop(0)
                        nxt = ready[c % len(ready)]
                        if nxt != cur:
                            run.fault("preemption")
                        cur = nxt
                    else:
                        left = 40
                        cur = ready[0] if cur not in ready else cur
                left -= 1
                s = slots[cur]
                w = s["w"]
                _, cls, n, own, path = w.pending
                w.nev += 1
                run.steps += 1
                pid = s["spec"]["lives"][s["life"]]["pid"]
                verdict, arg, note = "C", 0, ""
                for f in s["f"]:
                    kind, at = f[0], f[1]
                    if w.nev < at:
                        continue
                    if kind in ("killgroup", "killworker"):
                        note = kind
                    elif kind == "err" and cls in "orwunm" and own == bool(f[3]):
                        verdict, arg, note = "E", getattr(errno, f[2]), "err %s" % f[2]
                    elif kind == "short" and cls in "rw":
                        verdict, arg, note = "S", f[2], "short"
                    elif kind == "xkill" and not own:
                        verdict, arg, note = ("X", f[2], "xkill") if cls == "w" else ("K", 0, "xkill")
                    elif kind == "torn" and own and cls == "w":
                        verdict, arg, note = "X", f[2], "torn"
                    else:
                        continue
                    s["f"].remove(f)
                    break
                done = len(w.results)
                if note:
                    run.fault({"killgroup": "worker and XFOIL killed", "killworker": "worker killed, XFOIL goes on", "short": "short transfer", "xkill": "XFOIL killed", "torn": "worker killed inside a write"}.get(note, "I/O error in " + ("worker" if own else "XFOIL or shell")))
                    s["hit"].append((done, note.split()[0], own))
                changes = (cls == "o" and (n & 3 or n & 8)) or cls in "unt" or cls == "w"
                if changes and verdict == "C" and cls != "w":
                    base = path
                    if base in decoys and "foreign" in self.report:
                        run.bad("foreign file", "worker %d (process id %d) %s %s, which is not its file" % (cur, pid, {"o": "opens for writing", "u": "removes", "n": "renames onto", "t": "truncates"}[cls], base))
                    o = owner.get(base)
                    if o is not None and o != (cur, pid) and o[1] != pid and "foreign" in self.report and os.path.exists("work/" + base):
                        run.bad("foreign file", "worker %d (process id %d) %s %s of process %d" % (cur, pid, {"o": "opens for writing", "u": "removes", "n": "renames onto", "t": "truncates"}[cls], base, o[1]))
                    if cls == "o" and n & 8 and base not in stale:
                        owner.setdefault(base, (cur, pid))
                events.append("%d%s%s%s%s" % (cur, cls, "" if own else "'", path if cls not in "xy" else "", " " + (note or verdict) if note else ""))
                if note in ("killgroup", "killworker"):
                    g.kill(w, note == "killgroup")
                    if w.pending is not None:
                        g.reply(w)
                else:
                    g.reply(w, verdict, arg)
            else:
                run.bad("no-progress", "still busy after %d file operations" % run.steps)
        except gate.Stuck as e:
            run.bad("no-progress", str(e))
        finally:
            os.dup2(old, 1)
            g.close()
        run.sched = "\n".join(events)
        run.log += events[-200:]
        # the directory afterwards
        if "foreign" in self.report:
            for n, text in decoys.items():
                if not os.path.exists("work/" + n):
                    run.bad("foreign file", "%s is gone" % n)
                elif open("work/" + n, "rb").read() != text:
                    run.bad("foreign file", "%s was changed" % n)
        if "traces" in self.report and not run.viol:
            allok = all(c.get("ok") for s in slots for c in s["calls"]) and all(len(s["calls"]) == sum(len(l["calls"]) for l in s["spec"]["lives"]) for s in slots)
            if allok and not any(s.get("anyhit") for s in slots):
                rest = sorted(set(os.listdir("work")) - set(decoys) - (stale if plan["slots"] and plan.get("stale_foreign") else set()))
                run.probe("directories compared")
                if rest:
                    run.bad("traces", "%s remain after successful computations" % rest)
        run.nontrivial = self.trivially(run, plan, slots)
        return run

    def judge(self, run, plan, model, i, s, w, ok):
        """All that one life did"""
        life = s["spec"]["lives"][s["life"]]
        hits = s["hit"]
        if hits:
            s["anyhit"] = True
        prev = {}
        if "traces" in self.report and len(plan["slots"]) == 1 and all(h[1] == "short" for h in hits) and not any(c.get("xfail") for c in life["calls"]):
            if all(r[0] == "call" and r[1] is None for r in w.results) and len(w.results) == len(life["calls"]):
                new = sorted(set(os.listdir("work")) - s["before"])
                run.probe("directories compared after one worker")
                if new:
                    run.bad("traces", "%s remain after successful computations" % new)
                rest = set(os.listdir("work")) & {n for c in life["calls"] for n in own_names(plan["afs"][c["af"]]["name"], c, life["pid"])}
                if rest - {n for n, _ in plan["decoys"]}:
                    run.bad("traces", "%s are still there after successful computations" % sorted(rest))
        for r in w.results:
            if r[0] == "crash":
                run.bad("no-progress", "worker %d ended with %s" % (i, r[1]))
        calls = [r for r in w.results if r[0] == "call"]
        killed = w.killed or any(h[1] in ("torn",) for h in hits)
        if not killed and len(calls) < len(life["calls"]):
            run.bad("no-progress", "worker %d ended after %d of %d calls" % (i, len(calls), len(life["calls"])))
        for j, (r, c) in enumerate(zip(calls, life["calls"])):
            _, err, gx, gy = r
            a = plan["afs"][c["af"]]
            exp = model[util.digest([a, c["df"], c["xh"], c["yt"], c["n"]])]
            mine = [h for h in hits if h[0] == j]
            run.op("call ended in error" if err else "call succeeded")
            s["calls"].append({"ok": err is None})
            isnew = gx is not None and gy is not None and gx.shape == exp[:, 0].shape and gy.shape == exp[:, 1].shape and np.abs(gx - exp[:, 0]).max() < 3e-6 and np.abs(gy - exp[:, 1]).max() < 3e-6
            p = prev.get(c["af"])
            isprev = (p is None and gx is None and gy is None) or (p is not None and gx is not None and gy is not None and np.array_equal(p[0], gx) and np.array_equal(p[1], gy))
            what = "worker %d, process id %d, call %d (%s, flap %s, hinge %s/%s, %d points)" % (i, life["pid"], j, a["name"], c["df"], c["xh"], c["yt"], c["n"])
            harmless = all(h[1] == "short" for h in mine) and not c.get("xfail")
            if err is None:
                if not isnew:
                    run.bad("wrong coordinates", "%s returned and installed %s" % (what, describe(gx, gy, exp, plan, model)))
                if "errors" in self.report and (c.get("xfail") in ("missing", "crash", "exit1", "nosave", "partial", "noload", "empty") or any(h[1] == "err" and h[2] for h in mine) or any(h[1] == "xkill" for h in mine)):
                    run.bad("absorbed", "%s succeeded although %s" % (what, c.get("xfail") or mine))
            else:
                if harmless and ("errors" in self.report or "isolated" in self.report):
                    run.bad("error", "%s failed although nothing was wrong with it: %s" % (what, err))
                if not (isnew or isprev):
                    run.bad("wrong coordinates", "%s failed (%s) and left %s" % (what, err, describe(gx, gy, exp, plan, model)))
            if c.get("xfail"):
                run.fault("XFOIL: " + c["xfail"])
                s["anyhit"] = True
            prev[c["af"]] = None if gx is None else (gx, gy)
            run.ev(i, j, "error" if err else "success")

    def trivially(self, run, plan, slots):
        return run.steps > 10 and bool(run.faults)


def describe(gx, gy, exp, plan, model):
    if gx is None or gy is None:
        return "nothing" if gx is gy else "only one of the two coordinates"
    for k, m in model.items():
        if gx.shape == m[:, 0].shape and np.abs(gx - m[:, 0]).max() < 3e-6 and np.abs(gy - m[:, 1]).max() < 3e-6:
            return "the coordinates of another call" if m is not exp else "the right ones"
    return "%d/%d points that belong to no call (expected %d)" % (len(gx), len(gy), len(exp))


def sched_list(rng, nslots, n):
    style = rng.choice(["fine", "burst", "mixed"])
    return [[1 if style == "fine" else rng.choice([1, 2, 5, 12]) if style == "burst" else rng.choice([1, 1, 1, 3, 30]), rng.randrange(nslots)] for _ in range(n)]


def afs(rng, n):
    base = rng.randrange(20)
    return [{"name": NAMES[(base + i) % len(NAMES)] if rng.random() < 0.5 else "NACA64", "k": base + i, "n": rng.choice([21, 41, 60])} for i in range(n)]
