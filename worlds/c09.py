"""C09: a torn or truncated airfoil file is never taken for a complete one.

A process saving a file is killed at a chosen file operation (before it, or after part of it), or the
machine dies and keeps a leading part of the file, possibly with a tail of zero bytes.  Whatever is
left is loaded in both ways: an error, or the complete airfoil.
"""
import os, signal
import numpy as np
from sim import gen, util
from sim.disk import Disk
from . import aero
from .base import Base, Run


def attempt(path, how):
    try:
        return ("ok", aero.load(path, how))
    except Exception as e:
        return ("exc", type(e).__name__)


class World(Base):
    ID = "C09"
    QUICK = {"runs": 1600, "wall": 45}
    THOROUGH = {"runs": 40000, "wall": 800}
    SHRINK = ("cuts", "kills")
    TIMEOUT = 40
    RULE = ("a run saves one airfoil (over nothing, the same, a longer or a shorter airfoil), kills the save at 4 file operations and cuts the complete file at 40-160 places (uniform, at line ends, around end marks and the header), with and without zero tail; "
            "non-trivial: at least 10 damaged files were loaded")
    MEASURE = "distinct digests of the damaged lengths and outcomes"
    STUB = ["the kill and the amount written before it (libc interposer); the surviving part after a machine crash (prefix of the written bytes, optionally followed by zeros)"]
    REAL = Base.REAL + ["the file system below a scratch directory"]
    ASSUME = ["a file system that loses data in a crash keeps a leading part of the file and may read back zeros behind it"]

    def gen(self, rng, tier):
        s = aero.spec(rng, big=rng.random() < 0.3)
        old = rng.choice([None, None, "same", aero.spec(rng, 1), aero.spec(rng, 4)])
        cuts = []
        for _ in range(rng.choice([40, 80, 160])):
            k = rng.choice(["byte", "byte", "line", "line", "eot", "eot", "head", "tail"])
            cuts.append([k, round(rng.random(), 6), rng.choice([-4, -3, -2, -1, 0, 1, 2]), rng.choice([0, 0, 0, 1, 5, 300, 4096])])
        kills = [[rng.choice(["o", "w", "w", "w", "c"]), round(rng.random(), 5), rng.choice(["K", "X"]), rng.choice([0, 1, 17, 4000, 100000])] for _ in range(4)]
        return {"s": s, "old": old, "cuts": cuts, "kills": kills, "short": rng.choice([0, 0, 512, 64]), "how": rng.choice(["af", "af", "both"] if aero.smooth(s, old) else ["af"]), "sig": util.digest([s, old])}

    def run(self, plan, want):
        run = Run()
        exp = aero.expected(plan["s"])
        af = gen.make_airfoil(plan["s"])
        oldspec = plan["s"] if plan["old"] == "same" else plan["old"]
        oldexp = aero.expected(oldspec) if oldspec else None
        ways = ("af", "cc") if plan["how"] == "both" and aero.fits(exp) and (oldexp is None or aero.fits(oldexp)) else ("af",)
        os.mkdir("d")
        with Disk("d", (), (0, plan["short"])) as d:
            af.writeToAerodynFile("d/full.dat")
        full = open("d/full.dat", "rb").read()
        counts = d.counts
        if plan["old"]:
            gen.make_airfoil(oldspec).writeToAerodynFile("old.dat")
            oldbytes = open("old.dat", "rb").read()
        n = complete = 0

        def check(path, what, touched):
            nonlocal n, complete
            n += 1
            for how in ways:
                r = attempt(path, how)
                run.sched += "%s %s;" % (what, r[0])
                if r[0] == "exc":
                    continue
                bad = aero.same_load(r[1], how, exp)
                if bad is None:
                    complete += 1
                    continue
                if oldexp is not None and not touched and aero.same_load(r[1], how, oldexp) is None:
                    run.probe("previous file intact")
                    continue
                run.bad("taken for complete", "%s: loaded (%s) without error: %s" % (what, how, bad))

        check("d/full.dat", "complete file", True)
        if run.viol or not complete:
            run.bad("complete file", "the complete file does not load")
            return run
        eots = [i + 1 for i in range(len(full)) if full.startswith(b"\nEOT", i)] or [len(full)]
        lines = [i + 1 for i in range(len(full)) if full[i : i + 1] == b"\n"] or [len(full)]
        for k, frac, off, zeros in plan["cuts"]:
            if k == "byte":
                c = int(frac * len(full))
            elif k == "line":
                c = lines[min(len(lines) - 1, int(frac * len(lines)))] + off
            elif k == "eot":
                c = eots[min(len(eots) - 1, int(frac * len(eots)))] + 2 + off
            elif k == "head":
                c = lines[min(len(lines) - 1, int(frac * 14))] + off
            else:
                c = len(full) - int(frac * 60)
            c = max(0, min(c, len(full) - 1))
            with open("cut.dat", "wb") as f:
                f.write(full[:c] + b"\0" * zeros)
            run.fault("machine crash, zero tail" if zeros else "machine crash, leading part survives")
            run.steps += 1
            check("cut.dat", "first %d of %d bytes%s survive" % (c, len(full), " and %d zero bytes" % zeros if zeros else ""), True)
            if len(run.viol) > 2:
                return run
        for cls, frac, verdict, arg in plan["kills"]:
            for f in os.listdir("d"):
                os.unlink("d/" + f)
            if plan["old"]:
                with open("d/full.dat", "wb") as f:
                    f.write(oldbytes)
            k = 1 + int(frac * max(1, counts.get(cls, 1)))
            pid = os.fork()
            if pid == 0:
                try:
                    with Disk("d", [[cls, k, verdict, arg, 0]], (0, plan["short"])):
                        af.writeToAerodynFile("d/full.dat")
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            run.steps += 1
            if not os.WIFSIGNALED(st):
                run.probe("kill point not reached")
                continue
            run.fault("process killed at file operation")
            touched = not (plan["old"] and os.path.exists("d/full.dat") and open("d/full.dat", "rb").read() == oldbytes)
            if os.path.exists("d/full.dat"):
                check("d/full.dat", "killed at %s #%d (%s %d)" % (cls, k, verdict, arg), touched)
            # the operation can be repeated
            af.writeToAerodynFile("d/full.dat")
            bad = aero.close(aero.load("d/full.dat", "af"), exp)
            if bad:
                run.bad("repetition", "saving again after a save killed at %s #%d: %s" % (cls, k, bad))
        run.ev(len(full), n, complete)
        run.nontrivial = n >= 10
        run.probe("damaged files loaded", n)
        return run
