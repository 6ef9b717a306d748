"""C16: analyses leave the process as they found it.

Before every operation the process is put into some unusual but legal state (seeds, floating-point
settings, print options, filters, working directory, environment, handlers, umask); the operation
completes, fails in the model or in the operating system, or is interrupted at a chosen line; then the
whole state is compared.  Results are compared with those of a process in its default state.
"""
import builtins, codecs, decimal, faulthandler, gc, locale, logging, os, random, resource, signal, socket, sys, tempfile, threading, time, tracemalloc, warnings
import numpy as np
from sim import abort, gen, simaf, util
from sim.disk import Disk
from . import aero, flap
from .base import REPO, Base, Run, build_site, log_int, same

FILES = ("save", "load", "cli")  # compared with the same in an undisturbed process, with what they write
ANSWERED = ("rotor", "af", "pol", "build") + FILES
XF = ["crash", "exit1", "nosave", "partial", "noload", "missing", "empty", "empty"]


BUILTINS = sorted(set(vars(builtins)) - {"_"})
NUMPY = sorted(k for k, v in vars(np).items() if callable(v))
SEEN = set(sys.modules)


def snapshot():
    s = {}
    s["np.geterr"] = dict(np.geterr())
    s["np.geterrcall"] = np.geterrcall()
    s["np.getbufsize"] = np.getbufsize()
    s["np.get_printoptions"] = {k: v for k, v in np.get_printoptions().items()}
    try:
        import scipy.special

        s["scipy.special.geterr"] = dict(scipy.special.geterr())
    except AttributeError:
        pass
    s["warnings.filters"] = [repr(f) for f in warnings.filters]
    s["warnings.showwarning"] = (warnings.showwarning, warnings.formatwarning)
    s["random state"] = random.getstate()
    s["numpy.random state"] = [x.tolist() if isinstance(x, np.ndarray) else x for x in np.random.get_state()]
    s["working directory"] = os.getcwd()
    s["environment"] = dict(os.environ)
    s["signal handlers"] = [(int(n), signal.getsignal(n)) for n in sorted(signal.valid_signals())]
    s["signal mask"] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["timers"] = (signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0)
    s["standard streams"] = (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)
    s["hooks"] = (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.getprofile())
    s["open files"] = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            s["open files"][f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass  # the descriptor of this listing
    s["open files"] = {f: t for f, t in s["open files"].items() if not t.startswith("/proc/%d" % os.getpid())}
    s["threads"] = (len(threading.enumerate()), len(os.listdir("/proc/self/task")))
    try:
        s["child processes"] = os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        s["child processes"] = None
    m = os.umask(0o022)
    os.umask(m)
    s["umask"] = m
    s["sys"] = (list(sys.path), list(sys.argv), sys.getrecursionlimit(), sys.getswitchinterval(), list(sys.meta_path))
    s["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["logging"] = (logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
    s["tempdir"] = tempfile.tempdir
    s["decimal"] = repr(decimal.getcontext())
    s["socket timeout"] = socket.getdefaulttimeout()
    s["thread stack size"] = threading.stack_size()  # asking sets it to 0
    threading.stack_size(s["thread stack size"])
    s["digits of integers"] = sys.get_int_max_str_digits()
    s["diagnostics"] = (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.gettrace() is None, threading.getprofile() is None, sys.getallocatedblocks() > 0)
    s["codec handlers"] = [codecs.lookup_error(e) for e in ("strict", "ignore", "replace", "backslashreplace")]
    s["builtins"] = [id(vars(builtins).get(k)) for k in BUILTINS]
    s["numpy functions"] = [id(vars(np).get(k)) for k in NUMPY]
    s["modules removed"] = sorted(SEEN - set(sys.modules))
    SEEN.update(sys.modules)
    s["time zone"] = (time.tzname, time.timezone)
    s["numpy string function"] = np.array2string(np.array([1.0 / 3])) + repr(np.float64(2.0 / 3))
    s["priority, affinity"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    s["limits"] = [resource.getrlimit(getattr(resource, r)) for r in ("RLIMIT_NOFILE", "RLIMIT_FSIZE", "RLIMIT_AS", "RLIMIT_STACK", "RLIMIT_CPU")]
    return s


def handler(*a):
    pass


def disturb(d, home):
    """Puts the process into the state d"""
    random.seed(d["seed"])
    np.random.seed(d["seed"])
    np.seterr(**d["err"])
    np.set_printoptions(precision=d["prec"], threshold=d["thr"], suppress=bool(d["seed"] % 2))
    warnings.resetwarnings()
    for f in d["filters"]:
        warnings.filterwarnings(f[0], category=getattr(__builtins__, f[1], Warning) if not isinstance(__builtins__, dict) else __builtins__.get(f[1], Warning), append=f[2])
    os.chdir(os.path.join(home, d["cwd"]))
    os.environ["SIM_NOTE"] = str(d["seed"])
    signal.signal(signal.SIGUSR1, handler if d["sig"] else signal.SIG_DFL)
    signal.signal(signal.SIGCHLD, handler if d["sig"] > 1 else signal.SIG_DFL)
    os.umask(d["umask"])
    m = d.get("more")
    if m:
        locale.setlocale(locale.LC_ALL, "C")
        locale.setlocale(getattr(locale, m["lc"][0]), m["lc"][1])
        sys.setswitchinterval(m["switch"])
        sys.setrecursionlimit(m["rec"])
        gc.set_threshold(*m["gc"])
        (gc.enable if m["gcon"] else gc.disable)()
        decimal.getcontext().prec = m["prec"]
        socket.setdefaulttimeout(m["sock"])
        threading.stack_size(m["stack"])
        sys.set_int_max_str_digits(m["digits"])
        logging.root.setLevel(m["log"])
        np.seterrcall(handler if m["call"] else None)
        sys.path[:] = [x for x in sys.path if x != "/nonexistent/place"] + ["/nonexistent/place"] * m["path"]
        sys.argv[:] = m["argv"]
        tempfile.tempdir = os.getcwd() if m["tmp"] else None


class World(Base):
    ID = "C16"
    QUICK = {"runs": 800, "wall": 60}
    THOROUGH = {"runs": 60000, "wall": 800}
    RULE = ("a run is 5-14 operations of all kinds (rotor analyses, inverse designs, airfoil queries, preprocessing, saving, loading, command-line tool, flap computations), each in another process state, most with an interrupt, a model error or an I/O fault inside; "
            "non-trivial: at least two faults fired")
    MEASURE = "distinct digests of (operation, fault, function struck)"
    REAL = Base.REAL + ["the file system below a scratch directory", "the command-line tool, run as __main__ in the process"]
    STUB = ["XFOIL", "airfoil model errors", "the failing system call (libc interposer)"]
    ASSUME = ["interruptions strike between source lines of /repo/ccblade and not inside clean-up code", "what numpy, scipy or the interpreter cache internally is not process-wide state"]

    def gen(self, rng, tier):
        naf = 2
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        pols = [gen.polar_spec(rng) for _ in range(2)]
        aps = [gen.airfoil_spec(rng) for _ in range(2)]
        sp = [aero.spec(rng) for _ in range(2)]
        ops = []
        for _ in range(rng.randint(5, 14)):
            x = rng.random()
            if x < 0.27:
                q = dict(gen.rotor_op(rng, s, npts=1), w="rotor")
            elif x < 0.38:
                q = dict(gen.af_op(rng, naf, afs), w="af")
            elif x < 0.56:
                q = {"w": "pol", "o": gen.polar_op(rng, 2, 2)}
            elif x < 0.66:
                q = {"w": "save", "i": rng.randrange(2)}
            elif x < 0.76:
                q = {"w": "load", "i": rng.randrange(2), "how": rng.choice(["af", "cc"] if aero.smooth(*sp) else ["af"])}
            elif x < 0.82:
                q = {"w": "cli", "c": aero.cli_op(rng, ["a0.dat", "a1.dat"])}
            elif x < 0.94:
                q = {"w": "flap", "c": flap.call(rng, 2, ["single", "multi", "mpi"])}
            else:
                q = {"w": "build"}
            y = rng.random()
            if y < 0.4:
                q["f"] = ["abort", round(rng.random(), 6) if q["w"] not in ("save", "cli", "load", "flap", "build") else log_int(rng, 1, {"flap": 60, "build": 400}.get(q["w"], 900)), rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])]
            elif y < 0.6 and q["w"] in ("rotor", "af"):
                q["f"] = ["model", rng.choice([k for k in simaf.EXC if k not in ("SystemExit", "GeneratorExit")]), rng.choice("eed"), log_int(rng, 1, 200)]
            elif y < 0.75 and q["w"] == "rotor":
                q["f"] = ["nan", str(rng.randrange(naf)), rng.choice([1, log_int(rng, 1, 60)]), rng.choice([None, 3])]
            elif y < 0.8 and q["w"] in ("save", "load", "cli", "flap"):
                cls = rng.choice("owwr" if q["w"] != "load" else "orr")
                q["f"] = ["disk", [cls, rng.randint(1, 3) if cls == "o" else log_int(rng, 1, 40), "E", rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"]), 0], rng.choice([[0, 0], [64, 100]])]
            if q["w"] == "flap" and rng.random() < 0.45:
                q["c"]["xfail"] = rng.choice(XF)
            q["d"] = {"seed": rng.randrange(1000), "err": {k: rng.choice(["ignore", "warn", "print"]) for k in ("divide", "over", "under", "invalid")}, "prec": rng.choice([8, 3, 12]), "thr": rng.choice([1000, 5]),
                      "filters": [[rng.choice(["ignore", "always", "default", "once"]), rng.choice(["RuntimeWarning", "UserWarning", "DeprecationWarning", "Warning"]), rng.random() < 0.5] for _ in range(rng.randint(0, 3))],
                      "cwd": rng.choice(["d1", "d2/e", "."]), "sig": rng.randrange(3), "umask": rng.choice([0o022, 0o077, 0o002])}
            if rng.random() < 0.7:
                q["d"]["more"] = {"lc": [rng.choice(["LC_ALL", "LC_CTYPE", "LC_NUMERIC", "LC_COLLATE"]), rng.choice(["C", "C.UTF-8", "POSIX"])], "switch": rng.choice([0.005, 0.001, 0.1]), "rec": rng.choice([1000, 1500, 3000]),
                                  "gc": rng.choice([[700, 10, 10], [100, 5, 5], [50000, 20, 100]]), "gcon": rng.random() < 0.7, "prec": rng.choice([28, 9, 50]), "sock": rng.choice([None, 5.0]), "stack": rng.choice([0, 1 << 20]),
                                  "digits": rng.choice([4300, 0, 1000]), "log": rng.choice([30, 10, 50]), "call": rng.random() < 0.3, "path": rng.choice([0, 1]), "argv": rng.choice([["x"], ["prog", "--help"], ["a", "b.dat", "-o", "c"], [""]]), "tmp": rng.random() < 0.3}
            ops.append(q)
        return {"afs": afs, "rotor": s, "pols": pols, "aps": aps, "sp": sp, "ops": ops, "sig": util.digest([afs, s, [o["w"] for o in ops]])}

    def _call(self, site, q):
        rotor, afs, pols, aps, sps = site
        if q["w"] == "rotor":
            return gen.do_op(rotor, q)
        if q["w"] == "af":
            return gen.af_query(afs[q["i"]], q)
        if q["w"] == "pol":
            return gen.polar_data(gen.do_polar_op(pols, aps, q["o"]))
        if q["w"] == "build":
            return gen.do_op(gen.make_rotor(self.plan["rotor"], build_site(self.plan)), {"op": "loads", "U": 9.0, "Om": 8.0, "p": 1.0, "az": 0.0})
        if q["w"] == "save":
            sps[q["i"]].writeToAerodynFile("out.dat")
        if q["w"] == "load":
            return aero.load("a%d.dat" % q["i"], q["how"])
        if q["w"] == "cli":
            return aero.cli(*aero.cli_args(q["c"]))
        if q["w"] == "flap":
            c = q["c"]
            x, y = flap.outline(c["af"], 41)
            afs[0].x, afs[0].y, afs[0].AFName = x, y, "NACA64"
            path = flap.XFOIL if c.get("xfail") != "missing" else "/nonexistent/xfoil"
            afs[0].af_flap_coords(path, delta_flap=c["df"], xc_hinge=c["xh"], yt_hinge=c["yt"], numNodes=c["n"], multi_run=c["mode"] == "multi", MPI_run=c["mode"] == "mpi")
        return None

    @staticmethod
    def _files(q, out):
        """The outcome, with the text that was written"""
        f = "out.dat" if q["w"] == "save" else aero.cli_out(q["c"]) if q["w"] == "cli" else None
        if out[0] == "ok" and f:
            with open(f) as h:
                return ("ok", {"text": h.read()})
        return out

    def _site(self, plan):
        self.plan = plan
        simaf.ctl.reset()
        afs = build_site(plan)
        return gen.make_rotor(plan["rotor"], afs), afs, [gen.make_polar(p) for p in plan["pols"]], [gen.make_airfoil(a) for a in plan["aps"]], [gen.make_airfoil(a) for a in plan["sp"]]

    def oracle(self, plan):
        k = {x: plan[x] for x in ("afs", "rotor", "pols", "aps", "sp")}
        return [dict(k, q={a: b for a, b in q.items() if a not in ("f", "d")}) for q in plan["ops"] if q["w"] in ANSWERED]

    def answer(self, job):
        warnings.simplefilter("ignore")
        site = self._site(job)
        if job["q"]["w"] in FILES:
            with tempfile.TemporaryDirectory() as d:
                os.chdir(d)
                os.mkdir("sub")
                for i in range(2):
                    site[4][i].writeToAerodynFile("a%d.dat" % i)
                out = util.outcome(self._call, site, job["q"])[:2]
                return self._files(job["q"], out), 0
        with abort.Injected(REPO, None, None) as t:
            out = util.outcome(self._call, site, job["q"])
        return out[:2], t.count

    def run(self, plan, want):
        run = Run()
        home = os.getcwd()
        for d in ("d1", "d2", "d2/e", "sub", "d1/sub", "d2/e/sub"):
            os.mkdir(d)
        site = self._site(plan)
        rotor = site[0]
        theta = rotor.theta.copy()
        want = iter(want)
        fired_total = 0
        for n, q in enumerate(plan["ops"]):
            w = q["w"]
            run.op(w if w != "rotor" else q["op"])
            run.steps += 1
            ref, lines = next(want) if w in ANSWERED else (None, None)
            rotor.theta = theta.copy()
            rotor.inverse_analysis = False
            disturb(q["d"], home)
            if w in ("load", "cli", "save"):
                for i in range(2):
                    site[4][i].writeToAerodynFile("a%d.dat" % i)
            if w == "flap":
                os.environ["SIMX_OVERWRITE"] = "Y"
                os.environ["SIMX_FAIL"] = q["c"].get("xfail", "").replace("missing", "")
            f = q.get("f")
            fn = lambda: self._call(site, q)
            simaf.ctl.reset()
            gc.collect()
            before = snapshot()
            fired, res, bad, where = False, None, None, ""
            if f and f[0] == "abort":
                at = f[1] if isinstance(f[1], int) else 1 + int(f[1] * lines)
                fired, res, e, exc, where = abort.run_with(REPO, at, f[2], fn)
                bad = None if e is None else type(e).__name__
                del e, exc
            else:
                d = None
                if f and f[0] == "model":
                    simaf.ctl.raise_at = tuple(f[1:])
                elif f and f[0] == "nan":
                    simaf.ctl.nan = {int(f[1]): (f[2], None if f[3] is None else f[2] + f[3], "both", None)}
                elif f and f[0] == "disk":
                    d = Disk(home, [f[1]], tuple(f[2]))
                try:
                    if d is not None:
                        with d:
                            res = fn()
                    else:
                        res = fn()
                except BaseException as e:  # noqa: B902
                    bad = type(e).__name__
                fired = simaf.ctl.fired is not None or simaf.ctl.nan_hits > 0 or (d is not None and bool(d.fired[0]))
                if simaf.ctl.fired is not None:
                    simaf.ctl.fired.__traceback__ = None
            simaf.ctl.reset()
            gc.collect()
            after = snapshot()
            if fired:
                fired_total += 1
                run.fault({"abort": "interrupt " + str(f[2]), "model": "model error", "nan": "not-a-number data", "disk": "I/O error"}[f[0]])
            if w == "flap" and q["c"].get("xfail"):
                run.fault("XFOIL: " + q["c"]["xfail"])
                fired_total += 1
            what = "operation %d (%s%s)" % (n, w if w != "rotor" else q["op"], ", " + " ".join(str(v) for v in f[:1] + f[2:3]) + (" in " + where if where else "") if f and fired else "")
            for k in before:
                if before[k] != after.get(k):
                    run.bad("process state", "%s changed %s: %s" % (what, k, delta(before[k], after.get(k))))
            run.sched += "%s %s %s;" % (w, f[0] if f and fired else "-", where or bad or "")
            run.ev(n, w, f[0] if f and fired else "-", where or "", bad or "")
            if not fired and ref is not None:
                got = ("ok", util.flat(res)) if bad is None else ("exc", bad)
                got = self._files(q, got) if w in FILES else got
                if got[0] != ref[0] or (got[0] == "exc" and got[1] != ref[1]):
                    run.bad("result", "%s: %s, in a fresh process: %s" % (what, got[1] if got[0] == "exc" else "a result", ref[1] if ref[0] == "exc" else "a result"))
                elif got[0] == "ok":
                    d = same(got[1], ref[1])
                    if d:
                        run.bad("result", "%s depends on the state of the process: %s" % (what, d))
            # set right again what the process was left with, so that one defect is reported once
            sys.stdin, sys.stdout, sys.stderr = before["standard streams"][:3]
            os.chdir(home)
            for k in set(os.environ) - set(before["environment"]):
                del os.environ[k]
            os.environ.update(before["environment"])
            if len(run.viol) > 2:
                break
        run.nontrivial = fired_total >= 2
        return run


def delta(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return ", ".join("%s: %r -> %r" % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))[:200]
    return ("%r -> %r" % (a, b))[:200] if len(repr(a)) < 100 else "different"
