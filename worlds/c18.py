"""C18: what runs inside an operation can use the package as well.

One thread.  At chosen points of an operation - a source line (a signal handler, a finaliser), a call of
the airfoil model (a model that asks another rotor) - other work is done with the package: in place,
failing or not, several levels deep, or in a child process forked at that moment.
Model: every piece of work alone in a pristine process.
"""
import os, pickle, select, shutil, signal, sys, tempfile
from sim import gen, sched, simaf, util
from sim.abort import Injected
from .base import REPO, Base, Run, build_site, log_int, same


class Inner(Exception):
    """Trouble of the inner work"""


class Ctl:
    def reset(self):
        self.hook = None  # called at every airfoil evaluation / differentiation
        self.fail = []  # per level: evaluations until the model of that level's work fails


ctl = Ctl()
ctl.reset()


class ReAF(simaf.CCAirfoil):
    tag = None

    def _hit(self):
        if ctl.fail and ctl.fail[-1] is not None:
            ctl.fail[-1] -= 1
            if ctl.fail[-1] == 0:
                raise Inner("injected")
        if ctl.hook is not None:
            ctl.hook("model")

    def evaluate(self, alpha, Re, return_cm=False):
        self._hit()
        return super().evaluate(alpha, Re, return_cm)

    def derivatives(self, alpha, Re):
        self._hit()
        return super().derivatives(alpha, Re)


class World(Base):
    ID = "C18"
    QUICK = {"runs": 800, "wall": 50}
    THOROUGH = {"runs": 80000, "wall": 800}
    SHRINK = ("steps",)
    RULE = ("a run is 2-5 operations (analyses, inverse designs, airfoil queries, preprocessing, saving, loading, building), each entered at 1-6 points (a line, a model call) by other work with the package, up to seven levels deep, some of it failing, some in a forked child; "
            "non-trivial: at least two pieces of work ran inside others and were compared")
    MEASURE = "distinct digests of (operation, point of entry, inner work)"
    STUB = ["what runs inside: handlers called at chosen lines, airfoil models that call the package"]
    ASSUME = ["handlers run between source lines of /repo/ccblade or in the airfoil model", "no rotor is entered again while it is working"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        base = gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True)
        rotors = [base] + [base if rng.random() < 0.3 else gen.rotor_spec(rng, naf, n=rng.choice([3, 4]), small=True) for _ in range(2)]
        tower = rng.random() < 0.12
        if tower:  # many levels
            rotors += [rotors[rng.randrange(3)] for _ in range(rng.choice([1, 3, 5]))]
        pols = [gen.polar_spec(rng) for _ in range(3)]

        def work(level):
            x = rng.random()
            s = rotors[level]
            if x < 0.5 or (level == 0 and x < 0.6):
                return dict(gen.rotor_op(rng, s, npts=1 if level or rng.random() < 0.7 else 2), w="rotor", i=level)
            if x < 0.72:
                q = gen.af_op(rng, naf, afs)
                if q["q"] == "unsteady":
                    q["q"] = "max_eff"
                if isinstance(q["al"], list) and q["q"] != "evaluate":
                    q["al"] = q["al"][0]
                return dict(q, w="af")
            if x < 0.86:
                o = gen.polar_op(rng, 3, 4)
                return {"w": "pol", "op": o["k"], "o": o}
            if x < 0.94:
                return {"w": "file", "op": rng.choice(["save", "load", "cc"]), "i": rng.choice([0, 1, 1, 2, 2, 3]), "name": "out%d.dat" % level}
            return {"w": "build", "op": "build", "i": level, "U": 9.0}

        steps = []
        for _ in range(rng.randint(2, 5)):
            o = work(0)
            ins = []
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                q = work(1)
                if rng.random() < 0.35:
                    for _ in range(30):
                        q = q if q["w"] == o["w"] else work(1)
                if o["w"] == "pol" and rng.random() < 0.5:  # the same in other words
                    p = gen.polar_op(rng, 3, 4)
                    while p["k"] != o["op"] or p["on"] != o["o"]["on"]:
                        p = gen.polar_op(rng, 3, 4)
                    if rng.random() < 0.7:
                        p["i"] = o["o"]["i"]
                    q = {"w": "pol", "op": p["k"], "o": p}
                e = {"how": rng.choice(["line", "line", "model", "fork"]), "at": round(rng.random(), 5), "q": q}
                if e["how"] == "model" and o["w"] not in ("rotor", "build"):
                    e["how"] = "line"
                if e["q"]["w"] in ("rotor", "build") and rng.random() < 0.2:
                    e["fail"] = log_int(rng, 1, 60)
                elif e["q"]["w"] in ("rotor", "build") and rng.random() < 0.3:
                    e["deep"] = {"at": log_int(rng, 1, 60), "q": work(2)}
                if tower and e["how"] != "fork":
                    e.pop("fail", None)
                    e["q"] = dict(gen.rotor_op(rng, rotors[1], npts=1), w="rotor", i=1)
                    d, kind = e, e["q"]["op"] if rng.random() < 0.5 else None
                    for lv in range(2, len(rotors)):
                        d["deep"] = d = {"at": log_int(rng, 1, 20), "q": dict(gen.rotor_op(rng, rotors[lv], npts=1), w="rotor", i=lv)}
                        while kind and d["q"]["op"] != kind:
                            d["q"] = dict(gen.rotor_op(rng, rotors[lv], npts=1), w="rotor", i=lv)
                ins.append(e)
            steps.append({"q": o, "in": ins})
        return {"afs": afs, "rotors": rotors, "pols": pols, "steps": steps, "hot": rng.random() < 0.5, "sig": util.digest([afs, rotors, steps])}

    def all(self, plan):
        for t in plan["steps"]:
            yield t["q"]
            for e in t["in"]:
                while e:
                    yield e["q"]
                    e = e.get("deep")

    def oracle(self, plan):
        seen, jobs = set(), []
        for q in self.all(plan):
            k = util.digest(q)
            if k not in seen:
                seen.add(k)
                jobs.append({"afs": plan["afs"], "rotors": plan["rotors"], "pols": plan["pols"], "q": q, "key": k})
        return jobs

    def site(self, plan):
        from ccblade.airfoilprep import Airfoil

        ctl.reset()
        afs = build_site(plan, ReAF)
        pols = [gen.make_polar(p) for p in plan["pols"]]
        airs = [Airfoil([pols[i] for i in a]) for a in ((0, 1), (2,), (0,), (2, 1, 0))]
        return dict(afs=afs, rotors=[gen.make_rotor(s, afs) for s in plan["rotors"]], pols=pols, airs=airs, spec=plan["rotors"])

    def do(self, site, q):
        """-> plain data"""
        w = q["w"]
        if w == "rotor":
            r = site["rotors"][q["i"]]
            if q["op"] == "inverse":
                r.theta = r.theta.copy()
            return util.flat(gen.do_op(r, q))
        if w == "af":
            return util.flat(gen.af_query(site["afs"][q["i"]], q))
        if w == "pol":
            return util.flat(gen.polar_data(gen.do_polar_op(site["pols"], site["airs"], q["o"])))
        if w == "build":
            r = gen.make_rotor(site["spec"][q["i"]], site["afs"])
            return util.flat(gen.do_op(r, {"op": "loads", "U": q["U"], "Om": 8.0, "p": 1.0, "az": 0.0}))
        from . import aero
        from ccblade.airfoilprep import Airfoil
        from ccblade.ccblade import CCAirfoil

        if q["op"] == "save":
            site["airs"][q["i"]].writeToAerodynFile(q["name"])
            with open(q["name"]) as f:
                return {"text": f.read()}
        if q["op"] == "load":
            return util.flat(aero.data(Airfoil.initFromAerodynFile("in%d.dat" % q["i"])))
        return {"probe": aero.cc_probe(CCAirfoil.initFromAerodynFile("in%d.dat" % q["i"]))}

    def files(self, site):
        for i in range(4):
            site["airs"][i].writeToAerodynFile("in%d.dat" % i)

    def answer(self, job):
        d = tempfile.mkdtemp(dir=os.environ["SIM_SCRATCH"])
        try:
            os.chdir(d)
            site = self.site(job)
            if job["q"]["w"] == "file":
                self.files(site)
            evals = [0]

            def count(_):
                evals[0] += 1

            ctl.hook = count
            with Injected(REPO, None, None) as t:
                try:
                    out = ("ok", self.do(site, job["q"]))
                except Exception as e:
                    out = ("exc", type(e).__name__)
            return job["key"], out, t.count, evals[0]
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def run(self, plan, want):
        run = Run()
        model = {k: (out, lines, evals) for k, out, lines, evals in want}
        site = self.site(plan)
        self.files(site)
        thetas = [r.theta.copy() for r in site["rotors"]]
        if plan["hot"]:
            for a in site["afs"]:
                a.evaluate(0.05, 2e6), a.derivatives(0.05, 2e6)
        compared = 0

        def compare(what, q, out):
            nonlocal compared
            w = model[util.digest(q)][0]
            compared += 1
            run.ev(what, out[0], util.sig_of(out[1]) if out[0] == "ok" else out[1])
            if out[0] != w[0] or (out[0] == "exc" and out[1].split(":")[0] != w[1]):
                kind = "no-progress" if out[0] == "exc" and out[1].startswith("Deadlock") else "answer"
                run.bad(kind, "%s: %s; alone: %s" % (what, out[1] if out[0] == "exc" else "a result", w[1] if w[0] == "exc" else "a result"))
            elif out[0] == "ok":
                d = same(out[1], w[1])
                if d:
                    run.bad("answer", "%s: %s" % (what, d))

        def perform(q):
            if q["w"] in ("rotor", "build"):
                site["rotors"][q["i"]].theta = thetas[q["i"]].copy()
                site["rotors"][q["i"]].inverse_analysis = False
            try:
                return ("ok", self.do(site, q))
            except Inner:
                return ("inner", "")
            except (Exception, sched.Deadlock) as e:
                return ("exc", type(e).__name__ + ": " + str(e)[:200])

        def label(q):
            return q["op"] if q["w"] != "file" else q["op"] + " file"

        def inner(e, where):
            q = e["q"]
            what = "%s inside %s (%s, %s)" % (label(q), label(step["q"]), e["how"], where)
            run.sched += what + ";"
            hook, fails = ctl.hook, list(ctl.fail)
            def descend(deep, what, level):
                """The hook that does the work of the next level at the deep["at"]-th model call"""
                count = [0]

                def below(_):
                    count[0] += 1
                    if count[0] == deep["at"]:
                        inside = "%s, %d levels deep in " % (label(deep["q"]), level) + what
                        ctl.hook = descend(deep.get("deep"), inside, level + 1)
                        ctl.fail.append(None)
                        try:
                            out = perform(deep["q"])
                        finally:
                            ctl.fail.pop()
                            ctl.hook = below
                        run.fault("work inside work inside work" if level == 2 else "work more than two levels deep")
                        compare(inside, deep["q"], out)

                return below if deep else None

            ctl.hook = descend(e.get("deep"), what, 2)
            ctl.fail.append(e.get("fail"))
            try:
                if e["how"] == "fork":
                    out = self.forked(lambda: perform(q))
                    if out is None:
                        run.bad("no-progress", what + ": the forked child does not finish")
                        return
                else:
                    out = perform(q)
            finally:
                ctl.hook, ctl.fail = hook, fails
            run.fault("work in a forked child" if e["how"] == "fork" else "work inside")
            if out[0] == "inner":
                run.fault("inner failure")
                run.ev(what, "failed as it should")
                return
            compare(what, q, out)

        for n, step in enumerate(plan["steps"]):
            q = step["q"]
            _, lines, evals = model[util.digest(q)]
            run.op(label(q))
            run.steps += 1
            at_line, at_eval = {}, {}
            for e in step["in"]:
                if e["how"] == "model" and evals:
                    at_eval.setdefault(1 + int(e["at"] * evals), []).append(e)
                elif lines:
                    at_line.setdefault(1 + int(e["at"] * lines), []).append(e)
            t = Tracer(at_line, inner)
            k = [0]

            def on_eval(_):
                k[0] += 1
                for e in at_eval.get(k[0], []):
                    old = sys.gettrace()
                    sys.settrace(None)
                    try:
                        inner(e, "model call")
                    finally:
                        sys.settrace(old)

            ctl.hook, ctl.fail = on_eval, []
            site["rotors"][0].theta = thetas[0].copy()
            with t:
                out = perform(q)
            ctl.hook = None
            compare("operation %d (%s) with work inside" % (n, label(q)), q, out)
            if len(run.viol) > 3:
                break
        run.nontrivial = sum(run.faults.values()) >= 2 and compared >= 3
        return run

    def forked(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                sys.settrace(None)
                os.close(r)
                d = pickle.dumps(fn())
                while d:
                    d = d[os.write(w, d):]
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            if not select.select([r], [], [], 15)[0]:
                os.kill(pid, signal.SIGKILL)
                data = b""
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else None


class Tracer:
    """Calls back at chosen line events of the code under test"""

    def __init__(self, points, fn):
        self.pre, self.points, self.fn, self.n = REPO + "/ccblade", points, fn, 0

    def _trace(self, frame, event, arg):
        if event == "call":
            return self._trace if frame.f_code.co_filename.startswith(self.pre) else None
        if event == "line":
            self.n += 1
            for e in self.points.get(self.n, ()):
                self.fn(e, frame.f_code.co_name)
        return self._trace

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._trace)

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False
