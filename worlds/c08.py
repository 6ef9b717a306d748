"""C08: an airfoil saved in AeroDyn format loads back the same.

Histories of saves, loads, re-saves and command-line runs over a few file names with arbitrary
previous contents, on a disk that splits and interrupts reads and writes.  Model: a dictionary from
file name to the tables the file must hold, computed independently.
"""
import os
import numpy as np
from sim import gen, util
from sim.disk import Disk
from . import aero
from .base import Base, Run

NAMES = ["a.dat", "b.dat", "sub/a.dat", "c c.inp"]


class World(Base):
    ID = "C08"
    QUICK = {"runs": 1200, "wall": 45}
    THOROUGH = {"runs": 60000, "wall": 800}
    RULE = ("a run is 4-12 operations (save, save over, load in either way, load and save again, command-line tool) on up to 4 files with previous contents (nothing, a longer file, garbage, an empty file), "
            "each under a choice of short reads/writes and interruptions; non-trivial: at least two loads were compared and a read or write was split or interrupted")
    MEASURE = "distinct digests of the logged file operations"
    STUB = ["the kernel's choice of how much to transfer (libc interposer)"]
    REAL = Base.REAL + ["the file system below a scratch directory", "the command-line tool, run as __main__ in the process"]

    def gen(self, rng, tier):
        sp = [aero.spec(rng, big=rng.random() < 0.2) for _ in range(rng.choice([1, 2, 3]))]
        names = NAMES[: rng.choice([1, 2, 3, 4])]
        pre = {n: rng.choice(["none", "none", "longer", "garbage", "empty", "dup"]) for n in names}
        ops, saved = [], []
        for _ in range(rng.randint(4, 12)):
            x = rng.random()
            if not saved or x < 0.35:
                o = {"op": "save", "i": rng.randrange(len(sp)), "f": rng.choice(names)}
                saved.append(o["f"])
            elif x < 0.62:
                o = {"op": "load", "f": rng.choice(saved), "how": rng.choice(["af", "af", "cc"] if aero.smooth(*sp) else ["af"])}
            elif x < 0.78:
                o = {"op": "again", "f": rng.choice(saved), "to": rng.choice(names)}
                saved.append(o["to"])
            else:
                c = aero.cli_op(rng, saved)
                o = {"op": "cli", "c": c}
            o["short"] = rng.choice([[0, 0], [0, 0], [1, 1], [7, 13], [100, 50], [4096, 1000]])
            o["eintr"] = [[rng.choice("rwo"), rng.randint(1, 6), "E", "EINTR", 0] for _ in range(rng.choice([0, 0, 1, 3]))]
            ops.append(o)
        return {"sp": sp, "pre": pre, "ops": ops, "sig": util.digest([sp, pre])}

    def run(self, plan, want):
        run = Run()
        model = {}
        os.mkdir("sub")
        for n, k in plan["pre"].items():
            if k == "longer":
                open(n, "w").write("AeroDyn\nfile\nx\n3 tables\n" + "0.1 0.2 0.3 0.4\n" * 3000 + "EOT\n")
            elif k == "garbage":
                open(n, "wb").write(bytes(range(256)) * 40)
            elif k == "empty":
                open(n, "w").close()
            elif k == "dup":
                gen.make_airfoil(plan["sp"][0]).writeToAerodynFile(n)
        afs = [gen.make_airfoil(s) for s in plan["sp"]]
        exp = [aero.expected(s) for s in plan["sp"]]
        split = compared = 0
        for n, o in enumerate(plan["ops"]):
            run.op(o["op"])
            run.steps += 1
            d = Disk(".", o["eintr"], tuple(o["short"]))
            res = err = None
            try:
                with d:
                    if o["op"] == "save":
                        afs[o["i"]].writeToAerodynFile(o["f"])
                    elif o["op"] == "load":
                        if o["f"] not in model:
                            continue
                        how = o["how"]
                        if how == "cc" and not aero.fits(model[o["f"]]):
                            how = "af"  # (a blend can have the same Reynolds number twice: no grid to make)
                        res = aero.load(o["f"], how)
                    elif o["op"] == "again":
                        if o["f"] not in model:
                            continue
                        from ccblade.airfoilprep import Airfoil

                        a = Airfoil.initFromAerodynFile(o["f"])
                        a.writeToAerodynFile(o["to"])
                    else:
                        c = o["c"]
                        if c["src"] not in model or (c["k"] == "blend" and c["a"][0] not in model):
                            continue
                        try:
                            lib = aero.cli_lib(c, model[c["src"]], model.get(c["a"][0]))
                        except Exception:
                            run.probe("library operation fails")
                            continue
                        aero.cli(*aero.cli_args(c))
            except Exception as e:
                err = e
            ne = sum(d.fired)
            run.fault("EINTR", ne) if ne else None
            sh = sum(1 for l in d.log.splitlines() if l.rsplit(" ", 1)[-1][:1] == "S")
            run.fault("short read or write", sh) if sh else None
            split += bool(ne or sh)
            run.sched += util.digest(d.log) + ";"
            run.ev(n, o["op"], o.get("f", ""), util.digest(d.log))
            if err is not None:
                run.bad("error", "operation %d (%s) failed: %r" % (n, {k: v for k, v in o.items() if k in ("op", "f", "how", "to", "c")}, err))
                return run
            if o["op"] == "save":
                model[o["f"]] = exp[o["i"]]
                bad = aero.close(aero.load(o["f"], "af"), exp[o["i"]])
                if bad:
                    run.bad("save", "operation %d: saved to %s (before: %s) and loaded: %s" % (n, o["f"], plan["pre"][o["f"]], bad))
                    return run
                model[o["f"]] = aero.load(o["f"], "af")
            elif o["op"] == "load":
                bad = aero.same_load(res, how, model[o["f"]])
                if bad:
                    run.bad("load", "operation %d (%s as %s): %s" % (n, o["f"], o["how"], bad))
                compared += 1
            elif o["op"] == "again":
                src = model[o["f"]]
                bad = aero.close(aero.load(o["to"], "af"), src, 1e-9)
                if bad:
                    run.bad("again", "operation %d: loaded %s, saved to %s and loaded: %s" % (n, o["f"], o["to"], bad))
                    return run
                model[o["to"]] = src
                compared += 1
            else:
                out = aero.cli_out(o["c"])
                if not os.path.exists(out):
                    run.bad("cli", "operation %d: %s did not write %s" % (n, aero.cli_args(o["c"]), out))
                    return run
                got = aero.load(out, "af")
                bad = aero.close(got, lib)
                if bad:
                    run.bad("cli", "operation %d: %s wrote something else than the library gives: %s" % (n, aero.cli_args(o["c"]), bad))
                    return run
                model[out] = got
                compared += 1
            if compared and len(run.viol):
                return run
        for f, t in model.items():  # nobody else's file moved
            bad = aero.close(aero.load(f, "af"), t, 1e-9)
            if bad:
                run.bad("load", "at the end %s no longer holds its airfoil: %s" % (f, bad))
        run.nontrivial = compared >= 2 and split > 0
        return run
