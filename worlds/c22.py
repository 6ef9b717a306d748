"""C22: answers do not depend on the process they are computed in.

Every run starts an interpreter of its own, in which everything the package does not promise to depend on
is decided by the plan: hash seed, optimisation, address layout, contents of fresh memory, garbage
collection, clock (any date, stalls, leaps, set back), process id, time zone, locale, environment, closed
standard streams, working directory, place of the package, order of imports, thread.  It does operations
of all kinds, also on objects pickled and files written here, and sends back answers, objects and
files.  Model: the same operation in a fork of the pristine process here.
"""
import ctypes, os, pickle, shutil, subprocess, sys, tempfile, warnings
import numpy as np
from sim import gen, simaf, util
from . import aero, c17, flap
from .base import REPO, Base, Run, build_site, log_int, same

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ["ccblade.ccblade", "ccblade.airfoilprep", "ccblade.csystem", "ccblade.ccblade_component"]


def vec(q):
    from ccblade.csystem import DirectionVector

    a = [np.array(x) for x in q["v"]]
    x, y = DirectionVector(*a), DirectionVector(a[1], a[2], a[0])
    for k, t in zip(q["rot"], q["ang"]):
        x = getattr(x, k)(*([t] if k not in ("hubToYaw", "yawToHub") else [t]))
    z = x.cross(y) + x * 2.0 - y
    return {"a": [x.x, x.y, x.z], "b": z.toArray(), "s": str(z)}


class Site:
    """All objects of a run"""

    def __init__(self, plan):
        simaf.ctl.reset()
        warnings.simplefilter("ignore")
        self.afs = build_site(plan)
        self.rotor = gen.make_rotor(plan["rotor"], self.afs)
        self.pols = [gen.make_polar(p) for p in plan["pols"]]
        self.aps = [gen.make_airfoil(a) for a in plan["aps"]]
        self.sps = [gen.make_airfoil(a) for a in plan["sp"]]
        self.plan = plan
        self.shipped = None

    @staticmethod
    def ask(rotor, q):
        theta = rotor.theta
        try:
            return gen.do_op(rotor, q)
        finally:
            rotor.theta = theta  # an inverse design sets it

    def call(self, q):
        w = q["w"]
        if w == "rotor":
            return self.ask(self.rotor, q)
        if w == "newrotor":
            return gen.do_op(gen.make_rotor(self.plan["rotor"], build_site(self.plan)), q["q"])
        if w == "af":
            return gen.af_query(self.afs[q["i"]] if q["q"] != "unsteady" else gen.make_af(q["spec"]), q)
        if w == "pol":
            return gen.polar_data(gen.do_polar_op(self.pols, self.aps, q["o"]))
        if w == "save":
            self.sps[q["i"]].writeToAerodynFile(q["out"])
            return aero.load(q["out"], "af")
        if w == "load":
            return aero.load("a%d.dat" % q["i"], q["how"])
        if w == "cli":
            aero.cli(*aero.cli_args(q["c"]))
            return aero.load(aero.cli_out(q["c"]), "af")
        if w == "vec":
            return vec(q)
        if w == "flap":
            from ccblade.ccblade import CCAirfoil

            c = q["c"]
            x, y = flap.outline(c["af"], 41)
            af = CCAirfoil([-180.0, 0.0, 180.0], [1e6], np.zeros(3), np.zeros(3), x=x, y=y, AFName="NACA64")
            af.af_flap_coords(self.plan["xfoil"], delta_flap=c["df"], xc_hinge=c["xh"], yt_hinge=c["yt"], numNodes=c["n"], multi_run=c["mode"] == "multi", MPI_run=c["mode"] == "mpi")
            return [af.af_flap_xcoords, af.af_flap_ycoords]
        if w == "comp":
            from . import comp

            s = q["c"]
            p = comp.problem([s], False)
            comp.put(p, False, 0, comp.values(s, s["d"]))
            p.run_model()
            r = {"out": comp.outs(p, 0, s["kind"])}
            if q["tot"]:
                r["tot"] = comp.totals(p, False, 0, s["kind"], None)
            return r
        if w == "resume":  # the rotor or polars as pickled at home
            r, ap, po = self.shipped
            if q["q"]["w"] == "rotor":
                return self.ask(r, q["q"])
            return gen.polar_data(gen.do_polar_op(po, ap, q["q"]["o"]))
        raise ValueError(w)


def prepare(plan, ship=True):
    """The site, with its files in the current directory and objects pickled right now"""
    s = Site(plan)
    os.mkdir("sub")
    for i, a in enumerate(s.sps):
        a.writeToAerodynFile("a%d.dat" % i)
    s.shipped = pickle.loads(pickle.dumps((s.rotor, s.aps, s.pols)))
    return s


def perform(plan):
    """In the other process"""
    v = plan["env"]
    if v["cwd"] == "gone":
        d = tempfile.mkdtemp(dir=plan["dir"])
        os.chdir(d)
        os.rmdir(d)
    else:
        os.chdir(plan["dir"])
    s = Site(plan)
    s.shipped = pickle.loads(plan["shipped"])
    out = [util.outcome(s.call, q)[:2] for q in plan["ops"]]
    ship = pickle.dumps((s.rotor, s.aps, s.pols)) if v["ship"] else None
    import ctypes

    reads = ctypes.CDLL(os.environ["SIM_SHIM"]).sim_clock_reads
    reads.restype = ctypes.c_long
    return {"out": out, "ship": ship, "reads": reads(), "opt": sys.flags.optimize, "hash": hash("ccblade") % 1000}


class World(Base):
    ID = "C22"
    QUICK = {"runs": 400, "wall": 60}
    THOROUGH = {"runs": 20000, "wall": 800}
    TIMEOUT = 100
    SHRINK = ("ops",)
    RULE = ("a run starts one interpreter with its own hash seed, optimisation level, memory layout and contents, garbage collection, clock, process id, locale, environment, descriptors, import order and thread, which does 10-24 operations of all kinds "
            "(15 % of the runs also OpenMDAO components), with objects and files going there and back; non-trivial: at least eight operations were answered there")
    MEASURE = "distinct digests of the environment and the operations"
    REAL = Base.REAL + ["OpenMDAO (part of the runs)", "the Python interpreter with its options", "the file system below a scratch directory"]
    STUB = ["the clock and sleeping (libc interposer: any date, stalls, leaps, set back)", "the process id", "XFOIL"]
    ASSUME = ["answers in two processes are compared to 1e-7 (numpy may sum in another order where memory is aligned differently)", "only the C and C.UTF-8 locales are installed here: decimal commas are not simulated"]

    def gen(self, rng, tier):
        naf = 2
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        pols = [gen.polar_spec(rng) for _ in range(2)]
        aps = [gen.airfoil_spec(rng) for _ in range(2)]
        if rng.random() < 0.5:  # measured twice at the same Reynolds number
            a = rng.choice(aps)
            a.append(dict(gen.polar_spec(rng), Re=rng.choice(a)["Re"]))
            pols[1]["Re"] = pols[0]["Re"]
        sp = [aero.spec(rng) for _ in range(2)]
        om = rng.random() < 0.15
        gone = rng.random() < 0.08
        ways = ["af", "cc"] if aero.smooth(*sp) else ["af"]
        ops = []
        for k in range(rng.randint(10, 24)):
            w = rng.choice(["rotor", "rotor", "rotor", "newrotor", "af", "af", "pol", "pol", "pol", "vec", "resume", "resume"] + ([] if gone else ["save", "load", "cli", "flap"]) + (["comp", "comp"] if om else []))
            if w == "rotor":
                q = gen.rotor_op(rng, s, npts=rng.choice([1, 2]))
            elif w == "newrotor":
                q = {"q": gen.rotor_op(rng, s, npts=1)}
            elif w == "af":
                q = gen.af_op(rng, naf, afs)
            elif w == "pol":
                q = {"o": gen.polar_op(rng, 2, 2)}
            elif w == "vec":
                n = rng.choice([1, 3])
                q = {"v": [[round(rng.uniform(-3, 3), 4) for _ in range(n)] for _ in range(3)], "rot": [rng.choice(["yawToWind", "hubToYaw", "hubToAzimuth", "azimuthToHub", "airfoilToBlade", "yawToHub"]) for _ in range(3)], "ang": [round(rng.uniform(-180, 180), 2) for _ in range(3)]}
            elif w == "resume":
                q = {"q": dict(gen.rotor_op(rng, s, npts=1), w="rotor") if rng.random() < 0.7 else {"w": "pol", "o": gen.polar_op(rng, 2, 2)}}
            elif w == "save":
                q = {"i": rng.randrange(2), "out": rng.choice(["out%d.dat" % k, "sub/out.dat", "out"])}
            elif w == "load":
                q = {"i": rng.randrange(2), "how": rng.choice(ways)}
            elif w == "cli":
                q = {"c": aero.cli_op(rng, ["a0.dat", "a1.dat"])}
                if q["c"]["out"] == q["c"]["src"]:
                    q["c"]["out"] = "res%d.dat" % k
            elif w == "flap":
                q = {"c": flap.call(rng, 2, ["single", "multi", "mpi"])}
            else:
                from . import comp

                kd = rng.choice(["loads", "evaluate", "loads", "geometry", "twist"])
                c = {"kind": kd, "n": 3, "re": rng.choice([1, 2]), "tab": 1, "inverse": rng.random() < 0.6, "inn": False}
                c["d"] = comp.defaults(rng, kd, 3)
                q = {"c": c, "tot": kd != "twist" and rng.random() < 0.7}
            ops.append(dict(q, w=w))
        mods = list(MODS)
        loc = rng.choice([None, "C", "C", "xx_XX", "de_DE.UTF-8"])
        rng.shuffle(mods)
        env = {"hash": rng.randrange(1, 2 ** 32 - 1), "opt": rng.choice(["", "", "-O", "-OO"]), "flags": rng.choice([[], [], ["-u"], ["-X", "dev"], ["-s"], ["-b"]]),
               "gc": rng.choice(["", "off", "often"]), "junk": rng.randrange(10 ** 6), "njunk": rng.choice([0, 0, 10, 3000]), "perturb": rng.choice([None, 1, 85, 165, 255]), "pymalloc": rng.choice([None, None, "malloc", "debug", "malloc_debug"]),
               "clock": None if rng.random() < 0.15 else [rng.choice([0, 10 ** 9, 2 ** 31 - 100, 1_700_000_000, 4 * 10 ** 9, rng.randrange(1, 2 ** 32)]), rng.choice([0, 0, 1, 1000, 10 ** 6, 10 ** 9]), rng.randrange(10 ** 6), rng.choice([0, 0, 100, 500])],
               "pid": rng.choice([None, None, 1, 2, 7, 4242, 99999, 4194303]), "layout": rng.random() < 0.7,
               "vars": rng.choice([{}, {"TZ": "Pacific/Kiritimati"}, {"TZ": "America/New_York", "COLUMNS": "20"}, {"HOME": "/nonexistent", "USER": ""}, {"DEBUG": "1", "VERBOSE": "1", "TMPDIR": "/nonexistent"}, {"PYTHONIOENCODING": "ascii", "TERM": "dumb"}, {"SOURCE_DATE_EPOCH": "1", "CI": "true"},
                                   {k: str(rng.choice([1, 2, 3, 7])) for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS")}, {"OMPI_COMM_WORLD_RANK": "3", "OMPI_COMM_WORLD_SIZE": "8", "PMI_RANK": "3", "SLURM_PROCID": "3", "SLURM_JOB_ID": "77"}]),
               "drop": rng.choice([[], ["HOME", "USER", "PATH"], ["PATH"], ["TERM", "LOGNAME", "SHELL"]]),
               "locale": loc, "closed": rng.choice([[], [], [], [0], [1], [0, 1, 2], [2]]), "umask": rng.choice([0o022, 0o077, 0]),
               "cwd": "gone" if gone else "", "place": rng.choice(["", "", "mon projet é" if loc is None else "mon projet", "a b"]), "imports": mods[:rng.randint(0, 4)], "early": rng.choice(["numpy", ""]), "argv": rng.choice([[], [""], ["-c"], ["x.py", "--help"]]), "nofile": rng.random() < 0.3,
               "thread": rng.choice(["", "", "Thread-1", "worker", "MainThread"]), "liar": rng.choice([None, rng.randrange(1000)]),
               "machine": rng.choice([None, {"cpus": rng.choice([1, 2, 3, 64, None]), "load": rng.choice([0.0, 50.0]), "user": rng.choice(["root", "x"]), "uid": rng.choice([0, 1000]), "ppid": rng.choice([1, 777]), "host": rng.choice(["", "node17.cluster", "localhost"])}]), "ship": rng.random() < 0.5}
        return {"afs": afs, "rotor": s, "pols": pols, "aps": aps, "sp": sp, "ops": ops, "env": env, "om": om, "back": gen.rotor_op(rng, s, npts=1), "backpol": gen.polar_op(rng, 2, 2), "sig": util.digest([afs, s, ops, env])}

    def simplify(self, plan):
        e = plan["env"]
        plain = {"opt": "", "flags": [], "gc": "", "njunk": 0, "perturb": None, "pymalloc": None, "clock": None, "pid": None, "layout": True, "vars": {}, "drop": [], "locale": None, "closed": [], "umask": 0o022, "place": "", "imports": [], "early": "numpy", "argv": [], "nofile": False, "thread": "", "ship": False, "hash": 0, "liar": None, "machine": None}
        for k, v in plain.items():
            if e.get(k) != v:
                yield dict(plan, env=dict(e, **{k: v}))

    def oracle(self, plan):
        k = {x: plan[x] for x in ("afs", "rotor", "pols", "aps", "sp")}
        qs = list(plan["ops"])
        if plan["env"]["ship"]:
            qs += [dict(plan["back"], w="rotor"), {"w": "pol", "o": plan["backpol"]}]
        return [dict(k, q=q) for q in qs]

    def answer(self, job):
        with tempfile.TemporaryDirectory(dir=os.environ["SIM_SCRATCH"]) as d:
            os.chdir(d)
            s = prepare(dict(job, xfoil=os.environ["SIM_XFOIL"]))
            try:
                return util.outcome(s.call, job["q"])[:2]
            finally:
                os.chdir("/")

    def run(self, plan, want):
        run = Run()
        v = plan["env"]
        os.mkdir("work")
        os.chdir("work")
        home = prepare(dict(plan, xfoil=os.environ["SIM_XFOIL"]))
        os.chdir("..")
        place = REPO
        if v["place"]:
            os.mkdir(v["place"])
            os.symlink(os.path.join(REPO, "ccblade"), os.path.join(v["place"], "ccblade"))
            place = os.path.abspath(v["place"])
        req = {k: plan[k] for k in ("afs", "rotor", "pols", "aps", "sp", "ops", "env", "om")}
        req.update(here=HERE, place=place, dir=os.path.abspath("work"), xfoil=os.environ["SIM_XFOIL"], shipped=pickle.dumps((home.rotor, home.aps, home.pols)))
        with open("req", "wb") as f:
            pickle.dump(req, f)
        env = {k: x for k, x in os.environ.items() if k not in v["drop"] and not k.startswith(("PYTHON", "LC_", "LANG"))}
        env.update(v["vars"], PYTHONHASHSEED=str(v["hash"]), PYTHONDONTWRITEBYTECODE="1")
        flags = ["-B"]
        if v["opt"]:  # compiled once
            env["PYTHONPYCACHEPREFIX"] = os.path.join(os.environ["SIM_SCRATCH"], "cache")
            del env["PYTHONDONTWRITEBYTECODE"]
            flags = []
        if v["locale"]:
            env.update(LC_ALL=v["locale"], PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
        if v["perturb"]:
            env["MALLOC_PERTURB_"] = str(v["perturb"])
        if v["pymalloc"]:
            env["PYTHONMALLOC"] = v["pymalloc"]
        if v["clock"]:
            env["SIM_CLOCK"] = "%d %d %d %d" % (v["clock"][0] * 10 ** 9, v["clock"][1], v["clock"][2], v["clock"][3])
        if v["pid"]:
            env["SIM_PID"] = str(v["pid"])

        def before():
            if v["layout"]:  # no address randomisation: the layout follows from the plan
                ctypes.CDLL(None).personality(0x0040000)
            os.umask(v["umask"])
            for fd in v["closed"]:
                os.close(fd)

        cmd = [sys.executable] + flags + ([v["opt"]] if v["opt"] else []) + v["flags"] + [os.path.join(HERE, "sim", "elsewhere.py"), os.path.abspath("req"), os.path.abspath("ans")]
        err = open("err", "wb")
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err if 2 not in v["closed"] else subprocess.DEVNULL, preexec_fn=before)
        try:
            rc = p.wait(80)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        err.close()
        stage = open("ans.stage").read() if os.path.exists("ans.stage") else "start"
        if not os.path.exists("ans"):
            text = open("err", "rb").read()[-1500:].decode(errors="replace")
            if stage in ("package", "operations"):
                run.bad("no answer", "the process ended (%s) at %s: %s" % (rc, stage, text[-400:]))
                return run
            raise RuntimeError("the process ended (%s) at %s: %s" % (rc, stage, text))
        with open("ans", "rb") as f:
            a = pickle.load(f)
        assert a["opt"] == len(v["opt"].replace("-", ""))
        for k in ("opt", "gc", "perturb", "pymalloc", "clock", "pid", "drop", "locale", "closed", "cwd", "place", "thread", "vars", "liar", "machine"):
            if v[k]:
                run.fault({"opt": "optimised interpreter", "gc": "garbage collection " + v["gc"], "perturb": "fresh memory filled", "pymalloc": "other allocator", "clock": "simulated clock" + (", set and leaping" if v["clock"] and v["clock"][3] else ""), "pid": "simulated process id", "drop": "missing environment variables",
                           "locale": "other locale", "closed": "closed standard streams", "cwd": "deleted working directory", "place": "package at another place", "thread": "not the main thread", "vars": "other environment", "liar": "every variable asked for is set", "machine": "another machine"}[k])
        n = 0
        for j, (q, g, w) in enumerate(zip(plan["ops"], a["out"], want)):
            run.op(q["w"])
            run.steps += 1
            what = "operation %d (%s %s)" % (j, q["w"], str({k: x for k, x in q.items() if k in ("op", "q", "o", "c", "out", "how")})[:160])
            if g[0] != w[0]:
                run.bad("answer", "%s: %s there, %s here" % (what, (g[0], g[1] if g[0] == "exc" else ""), (w[0], w[1] if w[0] == "exc" else "")))
                continue
            if g[0] == "exc":
                if g[1] != w[1]:
                    run.bad("answer", "%s: %s there, %s here" % (what, g[1], w[1]))
                continue
            n += 1
            d = same(g[1], w[1]) if q["w"] in ("rotor", "newrotor", "resume") else util.differ(g[1], w[1], 1e-7)
            if d:
                run.bad("answer", "%s: %s" % (what, d))
            run.ev(j, q["w"], util.sig_of(w[1]))
        if a["ship"] is not None:
            ro, ap, po = pickle.loads(a["ship"])
            for q, w, f in ((plan["back"], want[-2], lambda: gen.do_op(ro, plan["back"])), (plan["backpol"], want[-1], lambda: gen.polar_data(gen.do_polar_op(po, ap, plan["backpol"])))):
                g = util.outcome(f)[:2]
                run.op("sent back")
                if g[0] != w[0] or (g[0] == "exc" and g[1] != w[1]):
                    run.bad("answer", "an object sent back: %s, here %s" % (g[:1] if g[0] == "ok" else g, w[:1] if w[0] == "ok" else w))
                elif g[0] == "ok":
                    d = same(g[1], w[1])
                    if d:
                        run.bad("answer", "an object sent back: %s" % d)
        for j, q in enumerate(plan["ops"]):  # files written there are read here
            f = q["out"] if q["w"] == "save" else aero.cli_out(q["c"]) if q["w"] == "cli" else None
            last = f and not any((x.get("out") if x["w"] == "save" else aero.cli_out(x["c"]) if x["w"] == "cli" else None) == f for x in plan["ops"][j + 1 :])
            if last and want[j][0] == "ok":
                try:
                    d = util.differ(util.flat(aero.load("work/" + f, "af")), want[j][1], 1e-7)
                except Exception as e:
                    d = "%s: %s" % (type(e).__name__, e)
                if d:
                    run.bad("file", "%s, written there: %s" % (f, d))
                run.probe("files read here")
        run.probe("clock readings there", a["reads"])
        run.sched = util.digest([v, [q["w"] for q in plan["ops"]]])
        run.simtime = 0.0
        run.ev("answered", n, a["hash"])
        run.nontrivial = n >= 8
        return run
