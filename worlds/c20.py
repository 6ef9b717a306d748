"""C20: bounded effort and bounded resources.

effort: airfoil models that misbehave in every way a number can (noise, jumps, flicker, huge, infinite, not a
number, different at each call); the simulator counts model calls and source lines and stops what
runs away; then the same objects with a sane model again, against a pristine process.
memory: long histories of ever new operations, completed, failed and interrupted; memory, files and
threads in use after each window of the history.
"""
import copy, gc, math, os, pickle, random, sys, threading, tracemalloc
import numpy as np
from sim import abort, gen, simaf, util
from .base import REPO, Base, Run, log_int, same

KINDS = ["noise", "jump", "flip", "huge", "tiny", "inf", "nan", "flicker", "zero", "const", "negcd", "steep", "alternate", "drift"]

CHAINS = ["polar chain", "airfoil chain", "vector chain", "reship", "file chain"]


class Runaway(BaseException):
    pass


class Wild:
    def reset(self):
        self.kind, self.n, self.limit, self.rnd, self.amp, self.only = None, 0, None, random.Random(0), 1.0, None
        self.wildcalls = 0


wild = Wild()
wild.reset()


class WildAF(simaf.CCAirfoil):
    tag = None

    def evaluate(self, alpha, Re, return_cm=False):
        w = wild
        w.n += 1
        if w.limit is not None and w.n > w.limit:
            raise Runaway("evaluations")
        res = super().evaluate(alpha, Re, return_cm)
        if w.kind is None or (w.only is not None and self.tag != w.only):
            return res
        w.wildcalls += 1
        k, a = w.kind, w.amp
        cl, cd = float(np.asarray(res[0]).ravel()[0]), float(np.asarray(res[1]).ravel()[0])
        al = float(np.asarray(alpha).ravel()[0])
        if k == "noise":
            cl, cd = cl + a * w.rnd.uniform(-1, 1), cd + a * w.rnd.random()
        elif k == "jump":
            cl = cl + (a if math.sin(1e4 * al) > 0 else -a) if math.isfinite(al) else cl
        elif k == "flip":
            cl = -cl if w.n % 2 else cl
        elif k == "huge":
            cl, cd = cl * 1e12 * a, cd * 1e12
        elif k == "tiny":
            cl, cd = cl * 1e-300, cd * 1e-300
        elif k == "inf":
            cl, cd = (math.inf if al > 0 else -math.inf), (cd if a > 1 else math.inf)
        elif k == "nan":
            cl = math.nan
        elif k == "flicker":
            cl = math.nan if w.rnd.random() < 0.3 else cl
        elif k == "zero":
            cl = cd = 0.0
        elif k == "const":
            cl = a
        elif k == "negcd":
            cd = -cd * 10 * a
        elif k == "steep":
            cl = 1e3 * a * math.tanh(1e6 * (al - 0.05)) if math.isfinite(al) else cl
        elif k == "alternate":
            cl = [0.0, a, -a, math.nan, math.inf][w.n % 5]
        elif k == "drift":
            cl += 1e-3 * w.n
        return (np.float64(cl), np.float64(cd)) + tuple(res[2:])

    def derivatives(self, alpha, Re):
        wild.n += 1
        if wild.limit is not None and wild.n > wild.limit:
            raise Runaway("evaluations")
        return super().derivatives(alpha, Re)


class Lines:
    """Counts source lines of the code under test and stops at the limit"""

    def __init__(self, limit):
        self.n, self.limit, self.hit = 0, limit, False

    def _trace(self, frame, event, arg):
        if event == "call":
            return self._trace if frame.f_code.co_filename.startswith(REPO + "/ccblade") else None
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                self.hit = True
                raise Runaway("lines in " + frame.f_code.co_name)
        return self._trace

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


PER_SOLVE = 1000  # model calls per section, azimuth and point: well above any bracketing solver's limit


def solves(s, q):
    sectors = 1 if s["tilt"] == s["yaw"] == s["shear"] == 0.0 else max(4, s["nSector"])
    return len(s["r"]) * (sectors * len(q["U"]) if q["op"] == "eval" else sectors if q["op"] == "inverse" else 1)


def rotors(plan):
    wild.reset()
    afs = [gen.make_af(a, cls=WildAF) for a in plan["afs"]]
    for i, a in enumerate(afs):
        a.tag = i
    return gen.make_rotor(plan["rotor"], afs), afs


class World(Base):
    ID = "C20"
    QUICK = {"runs": 240, "wall": 80}
    THOROUGH = {"runs": 40000, "wall": 800}
    SHRINK = ("steps", "mix")
    RULE = ("a run is either 2-6 analyses whose airfoil model misbehaves in one of %d ways, each followed by a sane one, or a history of 120-250 ever new operations of 1-5 kinds in five windows; "
            "non-trivial: the model misbehaved at least ten times, or the history was completed" % len(KINDS))
    MEASURE = "distinct digests of (operation, misbehaviour, outcome) or of the mix of operations"
    STUB = ["misbehaving airfoil models"]
    ASSUME = ["memory is what tracemalloc sees (Python objects and numpy arrays)"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        if rng.random() < 0.4:
            steps = []
            for _ in range(rng.randint(2, 6)):
                steps.append({"q": gen.rotor_op(rng, s, npts=2), "kind": rng.choice(KINDS), "amp": rng.choice([0.01, 0.3, 1.0, 5.0, 1000.0]), "only": rng.choice([None, None, 0]), "seed": rng.randrange(10 ** 6)})
            return {"mode": "effort", "afs": afs, "rotor": s, "steps": steps, "mix": [], "sig": util.digest([afs, s, steps])}
        mix = [rng.choice(["loads", "loads", "eval", "inverse", "abort", "modelerror", "nan", "wild", "af", "afnew", "polar", "polarfail", "build", "vector", "save", "load", "loadbad", "badarg", "comp loads", "comp evaluate", "comp totals", "unsteady", "flap"]) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < 0.4:
            mix = [rng.choice(CHAINS) for _ in range(rng.choice([1, 1, 2]))]
        elif rng.random() < 0.2:
            mix.append(rng.choice(CHAINS))
        return {"mode": "memory", "afs": afs, "rotor": s, "mix": mix, "steps": [], "m": rng.choice([24, 30, 50]), "seed": rng.randrange(10 ** 9), "sig": util.digest([afs, s, mix])}

    def oracle(self, plan):
        return [{"afs": plan["afs"], "rotor": plan["rotor"], "q": t["q"]} for t in plan["steps"]]

    def answer(self, job):
        rotor, _ = rotors(job)
        np.seterr(all="ignore")
        return util.outcome(gen.do_op, rotor, job["q"])[:2]

    def run(self, plan, want):
        import warnings

        warnings.simplefilter("ignore" if plan["mode"] == "effort" else "default")
        np.seterr(all="ignore")
        run = Run()
        (self.effort if plan["mode"] == "effort" else self.memory)(run, plan, want)
        return run

    def effort(self, run, plan, want):
        rotor, afs = rotors(plan)
        theta = rotor.theta.copy()
        calls = 0
        for n, (t, w) in enumerate(zip(plan["steps"], want)):
            q = t["q"]
            run.op(q["op"])
            run.steps += 1
            rotor.theta, rotor.inverse_analysis = theta.copy(), False
            wild.reset()
            wild.kind, wild.amp, wild.only, wild.rnd = t["kind"], t["amp"], t["only"], random.Random(t["seed"])
            k = solves(plan["rotor"], q)
            wild.limit = PER_SOLVE * k
            what = "operation %d (%s, model: %s %s)" % (n, q["op"], t["kind"], t["amp"])
            lim = Lines(100 * PER_SOLVE * k)
            out = None
            try:
                with lim:
                    out = util.outcome(gen.do_op, rotor, q)
            except Runaway as e:
                out = ("exc", "Runaway", e)
            over = wild.n > wild.limit or lim.hit
            if over:
                run.bad("no-progress", "%s did not end within %d model calls and %d lines" % (what, wild.limit, lim.limit))
            calls += wild.wildcalls
            run.fault("misbehaving model: " + t["kind"], wild.wildcalls)
            run.probe("most model calls per solve", max(0, wild.n // max(1, k) - run.probes.get("most model calls per solve", 0)))
            run.probe("most lines per solve", max(0, lim.n // max(1, k) - run.probes.get("most lines per solve", 0)))
            run.sched += "%s %s %s;" % (q["op"], t["kind"], out[0] if out[0] == "ok" else out[1])
            run.ev(n, q["op"], t["kind"], wild.n, lim.n, out[0] if out[0] == "ok" else out[1])
            wild.reset()
            rotor.theta, rotor.inverse_analysis = theta.copy(), False
            got = util.outcome(gen.do_op, rotor, q)[:2]
            if got[0] != w[0] or (got[0] == "exc" and got[1] != w[1]):
                run.bad("answer", "%s, repeated with a sane model: %s; fresh: %s" % (what, got[1] if got[0] == "exc" else "a result", w[1] if w[0] == "exc" else "a result"))
            elif got[0] == "ok":
                d = same(got[1], w[1])
                if d:
                    run.bad("answer", "%s, repeated with a sane model, differs from a fresh rotor: %s" % (what, d))
            if len(run.viol) > 2:
                break
        run.nontrivial = calls >= 10

    def memory(self, run, plan, want):
        rotor, afs = rotors(plan)
        theta = rotor.theta.copy()
        spec = plan["rotor"]
        rng = random.Random(plan["seed"])
        pols = [gen.make_polar(gen.polar_spec(rng)) for _ in range(3)]
        from ccblade.airfoilprep import Airfoil
        from ccblade.ccblade import CCAirfoil
        from . import aero, c17, comp, flap

        airs = [Airfoil([pols[0], pols[1]]), Airfoil([pols[2]])]
        airs[0].writeToAerodynFile("good.dat")
        with open("good.dat") as f:
            text = f.read()
        with open("bad.dat", "w") as f:
            f.write(text[: len(text) // 2])
        vec = c17.make({"v": [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], "kind": "array"})
        flaps = [CCAirfoil([-180.0, 0.0, 180.0], [1e6], np.zeros(3), np.zeros(3), x=x, y=y, AFName="NACA%d" % k) for k in (0, 1) for x, y in [flap.outline(k, 41)]]
        probs = {}
        for kind in plan["mix"]:
            if kind.startswith("comp "):
                k = "loads" if kind == "comp loads" else "evaluate"
                sp = {"kind": k, "n": 3, "re": 1, "tab": 1, "inverse": False}
                p = comp.problem([sp], False)
                comp.put(p, False, 0, comp.values(sp, comp.defaults(rng, k, 3)))
                probs[k] = p

        last = {"p": pols[0], "a": airs[0], "v": vec, "w": c17.make({"v": [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], "kind": "array"}), "r": rotor, "f": 0}
        grid = np.linspace(-30.0, 30.0, 25)
        few = {x: rng.sample(range(n), rng.choice([1, 1, 2, n])) for x, n in (("polar chain", 4), ("airfoil chain", 6), ("vector chain", 7))}  # all links of a kind
        regrid = rng.random() < 0.4
        airs[0].writeToAerodynFile("chain0.dat")
        airs[0].writeToAerodynFile("chain1.dat")

        def chain(kind, i):
            """Each operation takes what the last one returned"""
            if kind == "polar chain":
                p, k = last["p"], rng.choice(few[kind])
                last["p"] = p.blend(pols[i % 3], rng.random()) if k < 2 else p.correction3D(rng.uniform(0.3, 0.9), 0.2, 5.0) if k == 2 else pols[i % 3].blend(p, rng.random())
                if regrid and i % 4 == 0:
                    last["p"] = Airfoil([last["p"]]).interpToCommonAlpha(grid).polars[0]
            elif kind == "airfoil chain":
                a, k = last["a"], rng.choice(few[kind])
                last["a"] = a.blend(airs[0], rng.random()) if k < 2 else a.interpToCommonAlpha(grid) if k == 2 else a.correction3D(rng.uniform(0.3, 0.9), 0.2, 5.0) if k == 3 else airs[0].blend(a, rng.random()) if k == 4 else Airfoil([a.getPolar(3e6), a.getPolar(5e6)])
                if regrid and i % 3 == 0:
                    last["a"] = last["a"].interpToCommonAlpha(grid)
            elif kind == "vector chain":
                v, w, k = last["v"], last["w"], rng.choice(few[kind])
                if k == 0:
                    v += w * 1.0
                elif k == 1:
                    v -= w * 1.0
                elif k == 2:
                    v *= 0.5
                elif k == 3:
                    v /= 2.0
                elif k == 4:
                    v = getattr(v, rng.choice(c17.ROT))(rng.uniform(-180, 180))
                elif k == 5:
                    v = v.cross(w) * 0.1
                else:
                    v = -(v + w) - w * 0.5
                if regrid and i % 5 == 0:
                    w = type(w).fromArray(w.toArray())
                last["v"], last["w"] = v, w
            elif kind == "reship":
                x = rng.choice("pavr")
                last[x] = copy.deepcopy(last[x]) if i % 2 else pickle.loads(pickle.dumps(last[x]))
                if x == "r":
                    last[x].distributedAeroLoads(rng.uniform(5, 12), 8.0, 1.0, 0.0)
                elif x == "a":
                    last[x].getPolar(rng.uniform(2e6, 8e6))
                elif x == "v":
                    last[x].azimuthToHub(rng.uniform(0, 90))
            else:
                Airfoil.initFromAerodynFile("chain%d.dat" % (i % 2)).writeToAerodynFile("chain%d.dat" % ((i + 1) % 2))

        def one(kind, i):
            if kind in CHAINS:
                wild.reset()
                return chain(kind, i)
            rotor.theta, rotor.inverse_analysis = theta.copy(), False
            wild.reset()
            if kind in ("loads", "eval", "inverse"):
                q = gen.rotor_op(rng, spec, npts=1)
                while q["op"] != kind:
                    q = gen.rotor_op(rng, spec, npts=1)
                wild.limit = PER_SOLVE * solves(spec, q)
                gen.do_op(rotor, q)
            elif kind == "abort":
                q = gen.rotor_op(rng, spec, npts=1, inverse=False)
                wild.limit = PER_SOLVE * solves(spec, q)
                abort.run_with(REPO, log_int(rng, 1, 2000), "KeyboardInterrupt", lambda: gen.do_op(rotor, q))
            elif kind in ("modelerror", "nan", "wild"):
                q = gen.rotor_op(rng, spec, npts=1)
                wild.kind, wild.rnd, wild.amp = {"modelerror": None, "nan": "nan", "wild": "noise"}[kind], random.Random(i), 1.0
                if kind == "modelerror":
                    wild.limit = rng.randint(1, 60)
                else:
                    wild.limit = PER_SOLVE * solves(spec, q)
                try:
                    gen.do_op(rotor, q)
                except Runaway:
                    if kind != "modelerror":
                        raise
            elif kind == "af":
                o = gen.af_op(rng, len(afs), plan["afs"])
                o["al"] = round(rng.uniform(-0.5, 0.5), 6) if not isinstance(o["al"], list) else o["al"]
                o["Re"] = round(rng.uniform(1e6, 9e6), 1)
                gen.af_query(afs[o["i"]], o)
            elif kind == "unsteady":
                gen.af_query(afs[i % len(afs)], {"q": "unsteady", "spec": gen.af_spec(rng)})
            elif kind == "flap":
                c = flap.call(rng, 2, ["single", "multi", "mpi"])
                os.environ["SIMX_OVERWRITE"], os.environ["SIMX_FAIL"] = "Y", rng.choice(["", "", "", "crash", "nosave"])
                flaps[i % 2].af_flap_coords(flap.XFOIL, delta_flap=c["df"] + 0.001 * i, xc_hinge=c["xh"], numNodes=30, multi_run=c["mode"] == "multi", MPI_run=c["mode"] == "mpi")
            elif kind == "afnew":
                gen.make_af(plan["afs"][i % len(plan["afs"])]).evaluate(0.1, 2e6)
            elif kind in ("polar", "polarfail"):
                o = gen.polar_op(rng, 3, 2)
                while (isinstance(o.get("w"), str) or isinstance(o.get("cdmax"), str) or (o["k"] == "corr" and 500 in o["a"])) != (kind == "polarfail"):
                    o = gen.polar_op(rng, 3, 2)
                gen.do_polar_op(pols, airs, o)
            elif kind == "build":
                gen.do_op(gen.make_rotor(spec, afs), {"op": "loads", "U": rng.uniform(5, 12), "Om": 8.0, "p": 1.0, "az": 0.0})
            elif kind == "vector":
                getattr(vec, rng.choice(c17.ROT))(rng.uniform(-180, 180))
            elif kind == "save":
                airs[i % 2].writeToAerodynFile("out%d.dat" % (i % 7))
            elif kind == "load":
                aero.load("good.dat", "af" if i % 3 else "cc")
            elif kind == "loadbad":
                aero.load("bad.dat", "af" if i % 3 else "cc")
            elif kind.startswith("comp "):
                k = "loads" if kind == "comp loads" else "evaluate"
                comp.put(probs[k], False, 0, {"V_load": rng.uniform(5, 15), "pitch_load": rng.uniform(0, 6)})
                probs[k].run_model()
                if kind == "comp totals":
                    comp.totals(probs[k], False, 0, k, None)
            elif kind == "badarg":
                rotor.evaluate([rng.uniform(5, 12)] * 2, [8.0], ["x", 1.0])

        def window(m):
            for i in range(m):
                if run.viol:
                    return
                try:
                    one(plan["mix"][i % len(plan["mix"])], i)
                except Exception:
                    run.fault("failing operation")
                except Runaway:
                    run.bad("no-progress", "an operation (%s, model: %s) did not end within %d model calls" % (plan["mix"][i % len(plan["mix"])], wild.kind, wild.limit))
                run.steps += 1

        if not plan["mix"]:
            return
        used, fds, ths = [], [], []
        tracemalloc.start(1)

        def measure(m):
            window(m)
            sys._clear_type_cache()
            gc.collect()
            used.append(tracemalloc.get_traced_memory()[0])
            fds.append(len(os.listdir("/proc/self/fd")))
            ths.append(threading.active_count())

        def growth(m, k):
            return min(b - a for a, b in zip(used[-k - 1:], used[-k:])) / m

        m = plan["m"]
        for k in range(5):
            measure(m)
        if run.viol:
            tracemalloc.stop()
            return
        per = growth(m, 2)
        if bad(per, m) or fds[-1] > fds[-3] or ths[-1] > ths[-3]:  # caches that fill up, or not?
            run.probe("longer history")
            ms = sum(COST.get(k, 8) for k in plan["mix"]) / len(plan["mix"])
            total = int(min(2400, 20000 / ms))
            measure(total * 5 // 8)
            m = max(10, total // 8)
            for k in range(3):
                measure(m)
            per = growth(m, 3)
        run.probe("most bytes kept per operation", int(max(0, per)))
        run.op("history of " + "+".join(sorted(set(plan["mix"]))) if len(set(plan["mix"])) == 1 else "mixed history")
        if bad(per, m):
            snap = tracemalloc.take_snapshot()
            top = [s for s in snap.statistics("lineno") if REPO in s.traceback[0].filename][:1]
            run.bad("memory", "each of the last %d operations (%s) left about %d bytes behind%s" % (3 * m, "+".join(plan["mix"]), int(per), ", made at %s" % os.path.basename(top[0].traceback[0].filename) if top else ""))
        if fds[-1] > fds[-2] > fds[-3]:
            run.bad("files", "open files grow: %s" % fds)
        if ths[-1] > ths[-2] > ths[-3]:
            run.bad("threads", "threads grow: %s" % ths)
        tracemalloc.stop()
        run.sched += str(plan["mix"])
        run.ev("memory", "+".join(plan["mix"]), "grows" if bad(per, m) else "bounded", fds[-1] - fds[-2])
        run.nontrivial = True


LEAK = 6.0  # bytes per operation
COST = {"comp totals": 140, "comp evaluate": 32, "comp loads": 18, "eval": 30, "wild": 50, "vector": 1, "polar": 2, "polarfail": 2, "badarg": 1, "load": 3, "loadbad": 2, "afnew": 3, "unsteady": 3, "flap": 20, "polar chain": 2, "airfoil chain": 3, "vector chain": 1, "reship": 3, "file chain": 3}  # ms


def bad(per, m):
    return per > LEAK and per * m > 150
