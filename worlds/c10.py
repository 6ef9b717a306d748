"""C10: I/O failures surface and nothing leaks.

Saves, loads (both ways) and command-line runs during which one file operation (any position) fails once or
persistently: missing file, no permission, too many files, full disk, read-only file system, I/O error.
Success must mean a complete file or a complete airfoil; afterwards no descriptor is open, the objects
are unchanged, and the repetition without fault succeeds.
"""
import gc, os
import numpy as np
from sim import gen, util
from sim.disk import Disk, open_fds
from . import aero
from .base import Base, Run, exact, log_int

ERRS = {"o": ["ENOENT", "EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "ENFILE", "EISDIR"], "r": ["EIO", "ESTALE"], "w": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "c": ["EIO", "ENOSPC", "EDQUOT"],
        "n": ["EACCES", "ENOSPC", "EIO"], "u": ["EACCES", "EIO"], "t": ["EIO", "ENOSPC"], "m": ["EACCES"]}


# things that are not there, or are not files; some have a namesake elsewhere
MISSING = ["nothere.dat", "sub", "sub/a0.dat", "nodir/a1.dat", "a0", "a0.DAT", "./sub/../sub/a1.dat", "a0.dat/", "sub\\a0.dat", " a0.dat", "a0.dat ", "%s/nodir/a0.dat", "~/a0.dat", "a*.dat", ""]


def missing(o):
    n = MISSING[o.get("m", o["i"])]
    return n % os.getcwd() if "%s" in n else n


class World(Base):
    ID = "C10"
    QUICK = {"runs": 2000, "wall": 45}
    THOROUGH = {"runs": 100000, "wall": 800}
    SHRINK = ("ops",)
    RULE = ("a run is 3-8 saves, loads and command-line runs, each first with one failing file operation at a random position (transient or persistent, with short transfers so that every part of a file can be hit) and then repeated without; "
            "non-trivial: at least two faults fired")
    MEASURE = "distinct digests of (operation, failing call class, position, errno, outcome)"
    STUB = ["the failing system call (libc interposer)"]
    REAL = Base.REAL + ["the file system below a scratch directory", "the command-line tool, run as __main__ in the process"]
    ASSUME = ["a failing close after loading does no harm and need not be reported"]

    def gen(self, rng, tier):
        sp = [aero.spec(rng) for _ in range(2)]
        ops = []
        for _ in range(rng.randint(3, 8)):
            k = rng.choice(["save", "save", "load", "load", "cli", "missing"])
            o = {"op": k, "i": rng.randrange(2), "how": rng.choice(["af", "cc"] if aero.smooth(*sp) else ["af"]), "over": rng.random() < 0.5}
            if k == "missing":
                o["m"] = rng.randrange(len(MISSING))
            if k == "cli":
                o["c"] = aero.cli_op(rng, ["a0.dat", "a1.dat"])
            cls = rng.choice({"save": "oowwwwcnttm", "load": "orrrr", "cli": "oorrrwwwc", "missing": "o"}[k])
            if k == "cli" and cls == "c":
                cls = "w"
            o["fault"] = [cls, log_int(rng, 1, 60) if cls in "rw" else 1 if cls in "tm" else rng.randint(1, 3), "E", rng.choice(ERRS[cls]), int(rng.random() < 0.4)]
            o["short"] = rng.choice([[0, 0], [0, 0], [300, 300], [64, 100], [1000, 2000]])
            ops.append(o)
        return {"sp": sp, "ops": ops, "sig": util.digest(sp)}

    def run(self, plan, want):
        run = Run()
        afs = [gen.make_airfoil(s) for s in plan["sp"]]
        exp = [aero.expected(s) for s in plan["sp"]]
        os.mkdir("sub")
        fired_total = 0
        fresh = lambda: [afs[i].writeToAerodynFile("a%d.dat" % i) for i in range(2)]
        fresh()
        tabs = [aero.load("a%d.dat" % i, "af") for i in range(2)]
        for n, o in enumerate(plan["ops"]):
            run.op(o["op"])
            run.steps += 1
            for f in ("out.dat", "sub/res.dat", "res.dat"):
                if os.path.exists(f):
                    os.unlink(f)
            fresh()
            k = o["op"]
            if k == "save" and o["over"]:
                afs[1 - o["i"]].writeToAerodynFile("out.dat")
            lib = None
            how = o["how"] if k == "missing" or aero.fits(tabs[o["i"]]) else "af"
            if k == "cli":
                c = o["c"]
                try:
                    lib = aero.cli_lib(c, tabs[int(c["src"][1])], tabs[int(c["a"][0][1])] if c["k"] == "blend" else None)
                except Exception:
                    continue
                if os.path.exists(aero.cli_out(c)) and aero.cli_out(c) != c["src"]:
                    os.unlink(aero.cli_out(c))

            def go():
                if k == "save":
                    afs[o["i"]].writeToAerodynFile("out.dat")
                elif k == "load":
                    return aero.load("a%d.dat" % o["i"], how)
                elif k == "missing":
                    return aero.load(missing(o), how)
                else:
                    aero.cli(*aero.cli_args(o["c"]))

            def verdict(res):
                """None if the operation did what a success promises"""
                if k == "save":
                    bad = aero.close(aero.load("out.dat", "af"), exp[o["i"]])
                    if not bad and open("out.dat", "rb").read() != open("a%d.dat" % o["i"], "rb").read():
                        bad = "the file differs from one written anew (%d bytes, %d)" % (os.path.getsize("out.dat"), os.path.getsize("a%d.dat" % o["i"]))
                    return bad
                if k == "load":
                    return aero.same_load(res, how, tabs[o["i"]])
                if k == "cli":
                    return aero.close(aero.load(aero.cli_out(o["c"]), "af"), lib)

            before = [util.flat(gen.polar_data(a)) for a in afs]
            gc.collect()
            fds = open_fds()
            res = err = None
            cls, pos, _, eno, pers = o["fault"]
            d = Disk(".", [] if k == "missing" else [o["fault"]], tuple(o["short"]))
            try:
                with d:
                    res = go()
            except Exception as e:
                err = type(e).__name__ + ": " + str(e)
            gc.collect()
            fired = bool(d.fired and d.fired[0])
            what = "operation %d (%s%s, %s of %s call %d%s)" % (n, k, " " + str(aero.cli_args(o["c"])) if k == "cli" else "", eno, cls, pos, " and all later ones" if pers else "")
            if k == "missing":
                run.fault("missing file or directory")
                fired_total += 1
                if err is None:
                    run.bad("absorbed", "loading something that is not a file (%s) succeeded" % missing(o))
            elif fired:
                fired_total += 1
                run.fault("%s on %s%s" % (eno, {"o": "open", "r": "read", "w": "write", "c": "close", "n": "rename", "u": "unlink", "t": "truncate/sync", "m": "mkdir"}[cls], ", persistent" if pers else ""))
            run.sched += "%s %s %s %s %s;" % (k, cls, pos if fired else "-", eno, err is None)
            run.ev(n, k, "fired" if fired else "not reached", "error" if err is not None else "success")
            if err is None and k != "missing":
                try:
                    bad = verdict(res)
                except Exception as e:
                    bad = "%s: %s" % (type(e).__name__, e)
                if bad:
                    run.bad("partial", "%s reported success: %s" % (what, bad))
                elif fired and cls in "orw":
                    run.bad("absorbed", "%s: no error" % what)
            elif not fired and k != "missing":
                run.bad("error", "%s fails although nothing was wrong: %s" % (what, err))
            now = open_fds()
            if now != fds:
                run.bad("open file", "%s left descriptors %s open" % (what, sorted(set(now) - set(fds))))
            for i, (a, b) in enumerate(zip([util.flat(gen.polar_data(a)) for a in afs], before)):
                if exact(a, b):
                    run.bad("object changed", "%s changed airfoil %d: %s" % (what, i, exact(a, b)))
            if k != "missing" and (fired or err):
                if k == "cli" and aero.cli_out(o["c"]) == o["c"]["src"]:
                    fresh()  # its own source may be damaged by then
                try:
                    bad = verdict(go())
                except Exception as e:
                    bad = "%s: %s" % (type(e).__name__, e)
                if bad:
                    run.bad("repetition", "%s, again without the fault: %s" % (what, bad))
            if len(run.viol) > 2:
                break
        run.nontrivial = fired_total >= 2
        return run
