"""C17: direction vectors are values.

Histories of transformations, products, sums and in-place arithmetic over a pool of shared vectors made
from caller buffers, some interrupted at an exact line, some failing, with buffers and results
overwritten; then several threads transform the same vectors under the simulated scheduler.
Model: the expression that leads to an operand, evaluated once, alone, in a pristine process.
"""
import numpy as np
from sim import abort, gen, sched, util
from .base import REPO, Base, Run, exact, log_int

ROT = ["windToInertial", "inertialToWind", "yawToWind", "windToYaw", "hubToYaw", "yawToHub", "hubToAzimuth", "azimuthToHub", "azimuthToBlade", "bladeToAzimuth", "airfoilToBlade", "bladeToAirfoil"]
BIN = ["cross", "add", "sub", "mul", "div", "cross_deriv", "cross_deriv_array"]
INP = ["iadd", "isub", "imul"]
ONE = ["airfoilToProfile", "profileToAirfoil", "neg", "toArray", "str"]


def angle(a):
    return np.array(a, dtype=float) if isinstance(a, list) else a


def make(s, bufs=None, ders=None):
    from ccblade.csystem import DirectionVector

    c = bufs if bufs is not None else [np.array(v, dtype=float) if isinstance(v, list) else v for v in s["v"]]
    if s.get("how") == "array":
        return DirectionVector.fromArray(c if s["kind"] == "list" else np.array(c))
    return DirectionVector(*c, *(ders or derivs(s)))


def derivs(s):
    """The derivatives given by the caller: none, or three dictionaries"""
    if not s.get("d"):
        return []
    return [{k: np.array(v, dtype=float) * (0.3 + 0.1 * i + 0.7 * j) - s["d"] for j, k in enumerate(("dx", "dy", "dz", "dq"))} for i, v in enumerate(s["v"])]


def arrays(r):
    """all arrays that can be reached from a result"""
    if isinstance(r, np.ndarray):
        return [r]
    if hasattr(r, "x"):
        r = [r.x, r.y, r.z, r.dx, r.dy, r.dz]
    if isinstance(r, dict):
        r = list(r.values())
    return [a for x in r for a in arrays(x)] if isinstance(r, (list, tuple)) else []


def data(v, derivs=True):
    if not hasattr(v, "x"):
        return v
    d = {"x": v.x, "y": v.y, "z": v.z}
    if derivs:
        for k in ("dx", "dy", "dz"):
            d[k] = dict(getattr(v, k))
    return d


def apply(o, x, other):
    """The operation o on vector x; `other` its second operand (a vector, number or array)"""
    k = o["k"]
    if k in ROT:
        return getattr(x, k)(o["buf"] if "buf" in o else angle(o["a"]))
    if k == "cross":
        return x.cross(other)
    if k in ("cross_deriv", "cross_deriv_array"):
        return getattr(x, k)(other, *o.get("names", []))
    if k == "add":
        return x + other
    if k == "sub":
        return x - other
    if k == "mul":
        return x * other
    if k == "div":
        return x / other
    if k == "neg":
        return -x
    if k == "toArray":
        return x.toArray()
    if k == "str":
        return str(x)
    if k == "iadd":
        x += other
    elif k == "isub":
        x -= other
    elif k == "imul":
        x *= other
    elif k in ONE:
        return getattr(x, k)()
    return x


class World(Base):
    ID = "C17"
    QUICK = {"runs": 2500, "wall": 45}
    THOROUGH = {"runs": 300000, "wall": 800}
    SHRINK = ("ops", "pts", "threads")
    RULE = ("a run is 4-16 operations on 3-4 direction vectors (numbers or arrays) and on earlier results, with interrupts, failures, in-place arithmetic and overwritten buffers and results, followed (60 %) by 2-3 threads on the same vectors; "
            "non-trivial: at least one interrupt, failure, overwriting or preemption, and at least two results were compared after")
    MEASURE = "distinct digests of operations, functions struck and thread switches"
    REAL = ["/repo/ccblade/csystem.py", "numpy"]
    STUB = ["the choice of the thread that runs"]
    ASSUME = ["interrupts and thread switches happen between source lines of /repo/ccblade",
              "an in-place operation that fails or is interrupted leaves its left operand undefined (and no other)"]

    def gen(self, rng, tier):
        n = rng.choice([1, 3, 5])
        num = lambda: round(rng.uniform(-9, 9), rng.choice([0, 2, 5])) or 1.5

        def vec():
            kind = rng.choice(["scalar", "array", "array", "mixed", "list"])
            v = [num() if kind == "scalar" or (kind == "mixed" and rng.random() < 0.5) else [num() for _ in range(n)] for _ in range(3)]
            if kind == "mixed":
                v[0] = [num() for _ in range(n)]
            if rng.random() < 0.1:
                v[rng.randrange(3)] = 0.0 if kind == "scalar" else [0.0] * n
            how = rng.choice(["ctor", "array"]) if kind in ("scalar", "array", "list") else "ctor"
            return {"v": v, "kind": kind, "how": how, "d": round(rng.uniform(0.1, 3.0), 2) if how == "ctor" and rng.random() < 0.3 else 0}

        vecs = [vec() for _ in range(rng.choice([3, 4]))]

        def op(nv, inplace=True, only=None):
            x = rng.random()
            o = {"i": rng.randrange(nv)}
            if only:
                x = 0.3 if only in ROT else 0.6 if only in ONE else 0.7
            if x < 0.55:
                o["k"] = only or rng.choice(ROT)
                o["a"] = rng.choice([0.0, 90.0, 180.0, num() * 10, num() * 10, [round(rng.uniform(-200, 400), 3) for _ in range(n)]])
            elif x < 0.65:
                o["k"] = only or rng.choice(ONE)
            elif x < 0.85 or not inplace:
                o["k"] = only or rng.choice(BIN)
                o["j"] = rng.randrange(nv) if o["k"] not in ("add", "sub", "mul", "div") or rng.random() < 0.7 else num()
                if o["k"].startswith("cross_") and rng.random() < 0.4:
                    o["names"] = rng.choice([["a", "b"], ["r", "F"]])
            else:
                o["k"] = rng.choice(INP)
                o["j"] = rng.randrange(nv) if rng.random() < 0.6 else num()
            return o

        nv, ops = len(vecs), []
        for _ in range(rng.randint(4, 16)):
            o = op(nv)
            y = rng.random()
            if o["k"] in INP and y > 0.4:  # looked at before and after
                look = {"i": o["i"], "k": rng.choice(ONE + ["toArray", "toArray"] + ROT), "a": rng.choice([0.0, 30.0, num() * 10])}
                ops += [dict(look), o, dict(look)]
                continue
            if y < 0.2:
                o["abort"] = [rng.randint(1, 60), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            elif y < 0.35 and o["k"] not in INP:
                o["scribble"] = True
            elif y < 0.7 and o["k"] in ROT + ["cross", "add", "sub", "mul", "neg", "airfoilToProfile", "profileToAirfoil"]:
                o["keep"] = True
                nv += 1
            if rng.random() < 0.15:
                o["bufs"] = True  # the caller overwrites all its buffers afterwards
            ops.append(o)
        same = rng.choice(["cross", "cross_deriv_array", rng.choice(ROT), rng.choice(BIN)]) if rng.random() < 0.5 else None
        threads = [[op(len(vecs), False, same if rng.random() < 0.8 else None) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([2, 2, 3]))] if rng.random() < 0.6 else []
        return {"vecs": vecs, "ops": ops, "threads": threads, "n": n, "pts": gen.fpoints(rng, max(1, len(threads))), "sig": util.digest([vecs, ops])}

    # ---- expressions: what every vector is, as a tree
    def expr(self, plan):
        """for each operation its expression, for the final pool too"""
        pool = [["v", i] for i in range(len(plan["vecs"]))]
        out = []
        for o in plan["ops"]:
            if not self.fits(pool, o):
                out.append(None)
                if o.get("keep"):
                    pool.append(["v", 0])
                continue
            e = ["o", {k: o[k] for k in ("k", "a", "names") if k in o}, pool[o["i"]], pool[o["j"]] if isinstance(o.get("j"), int) else o.get("j")]
            out.append(e)
            if o.get("keep"):
                pool.append(e)
            elif o["k"] in INP:
                pool[o["i"]] = e if "abort" not in o else ["v", o["i"] % len(plan["vecs"])]
        return out, pool

    @staticmethod
    def fits(pool, o):
        return o["i"] < len(pool) and (not isinstance(o.get("j"), int) or o["j"] < len(pool))

    def value(self, plan, e):
        if e[0] == "v":
            return make(plan["vecs"][e[1]])
        x = self.value(plan, e[2])
        y = (x if e[3] == e[2] and e[1]["k"] in INP else self.value(plan, e[3])) if isinstance(e[3], list) else e[3]
        try:
            return apply(e[1], x, y)
        except Exception:
            if e[1]["k"] in INP:
                return x  # refused
            raise

    def oracle(self, plan):
        ex, pool = self.expr(plan)
        jobs = [{"vecs": plan["vecs"], "e": e} for e in ex]
        for th in plan["threads"]:
            for o in th:
                fit = o["i"] < len(plan["vecs"]) and (not isinstance(o.get("j"), int) or o["j"] < len(plan["vecs"]))
                jobs.append({"vecs": plan["vecs"], "e": ["o", {k: o[k] for k in ("k", "a", "names") if k in o}, ["v", o["i"]], ["v", o["j"]] if isinstance(o.get("j"), int) else o.get("j")] if fit else None})
        return [{"jobs": jobs}]  # pure expressions of fresh vectors: one process answers them all

    def answer(self, job):
        res = []
        np.seterr(all="ignore")
        for q in job["jobs"]:
            if q["e"] is None:
                res.append(None)
                continue

            def top():
                e = q["e"]
                x = self.value(q, e[2])
                y = (x if e[3] == e[2] and e[1]["k"] in INP else self.value(q, e[3])) if isinstance(e[3], list) else e[3]
                with abort.Injected(REPO, None, None) as t:
                    try:
                        return t, util.outcome(lambda: data(apply(e[1], x, y)))
                    finally:
                        pass

            try:
                t, out = top()
                res.append((out[:2], t.count))
            except Exception:
                res.append(None)  # its operands do not exist
        return res

    def run(self, plan, want):
        run = Run()
        np.seterr(all="ignore")
        want = list(want[0])
        bufs, pool, given = [], [], []
        for s in plan["vecs"]:
            b = [np.array(v, dtype=float) if isinstance(v, list) and s["kind"] != "list" else (list(v) if isinstance(v, list) else v) for v in s["v"]]
            if s["how"] == "array" and s["kind"] != "list":
                b = np.array(b, dtype=float)
            ders = derivs(s)
            bufs.append((b, [np.array(v) for v in b]))
            pool.append(make(s, b, ders))
            if ders:
                given.append((ders, util.flat(ders)))
        valid = [True] * len(pool)
        angles = np.zeros(plan["n"])  # the caller's, filled anew each time
        snap = lambda: [util.flat(data(v)) for v in pool]
        before = snap()
        kept = []
        disturbed = compared = 0

        def operands(n, o, left=None):
            nonlocal before
            now = snap()
            for i, (a, b) in enumerate(zip(now, before)):
                if i == left:
                    continue
                d = exact(a, b) or exact(b, a)
                if d:
                    run.bad("operand changed", "%s (%s) changed vector %d: %s" % (n, o, i, d))
            before = now
            for m, v, cp in kept:
                d = exact(util.flat(data(v)), cp)
                if d:
                    run.bad("result changed", "%s (%s) changed the result of operation %s: %s" % (n, o, m, d))
            kept[:] = [(m, v, util.flat(data(v))) for m, v, _ in kept][-6:]
            for b, cp in bufs:
                if any(np.asarray(x).tobytes() != c.astype(np.asarray(x).dtype).tobytes() for x, c in zip(b, cp)):
                    run.bad("operand changed", "%s (%s) changed the caller's numbers" % (n, o))
            bufs[:] = [(b, [np.array(v) for v in b]) for b, _ in bufs]
            for ders, cp in given:
                d = exact(util.flat(ders), cp) or exact(cp, util.flat(ders))
                if d:
                    run.bad("operand changed", "%s (%s) changed the caller's derivatives: %s" % (n, o, d))
            given[:] = [(ders, util.flat(ders)) for ders, _ in given]

        def compare(n, o, out, w):
            nonlocal compared
            if out[0] != w[0] or (out[0] == "exc" and out[1] != w[1]):
                run.bad("result", "%s (%s): %s, on fresh vectors %s" % (n, o["k"], out[1] if out[0] == "exc" else "a result", w[1] if w[0] == "exc" else "a result"))
                return
            if out[0] == "ok":
                d = util.differ(out[1], w[1], 1e-9)
                if d is None and set(out[1]) != set(w[1]):
                    d = "it has %s" % sorted(set(out[1]) ^ set(w[1]))
                if d:
                    run.bad("result", "%s (%s) differs from the result on fresh vectors: %s" % (n, o["k"], d))
                compared += disturbed > 0
            run.ev(n, o["k"], util.sig_of(out[1]) if out[0] == "ok" else out[1])

        for n, o in enumerate(plan["ops"]):
            if not self.fits(pool, o) or want[n] is None or not valid[o["i"]] or (isinstance(o.get("j"), int) and not valid[o["j"]]):
                if o.get("keep"):
                    pool.append(make(plan["vecs"][0]))
                    valid.append(False)
                    before = snap()
                elif o["k"] in INP and o["i"] < len(pool):
                    valid[o["i"]] = False
                continue
            w, lines = want[n]
            run.op(o["k"])
            run.steps += 1
            q = dict(o)
            if isinstance(o.get("a"), list):
                q["buf"] = angles
                angles[...] = o["a"]
            other = pool[o["j"]] if isinstance(o.get("j"), int) else o.get("j")
            box = {}

            def go():
                box["r"] = apply(q, pool[o["i"]], other)

            left = o["i"] if o["k"] in INP else None
            if "abort" in o:
                fired, _, err, exc, where = abort.run_with(REPO, 1 + o["abort"][0] % max(1, lines), o["abort"][1], go)
                if fired:
                    run.fault("interrupt")
                    disturbed += 1
                    if err is None:
                        run.bad("absorbed", "operation %d (%s): %s was absorbed" % (n, o["k"], o["abort"][1]))
                    run.sched += "%s!%s;" % (o["k"], where)
                    operands("operation %d, interrupted" % n, o["k"], left)
                if left is None:
                    out = util.outcome(lambda: data(apply(q, pool[o["i"]], other)))
                    compare("operation %d after its interruption" % n, o, out[:2], w)
                    operands("operation %d" % n, o["k"])
                else:
                    valid[left] = False
                continue
            out = util.outcome(lambda: (go(), data(box["r"]))[1])
            if out[0] == "exc":
                disturbed += 1
                run.fault("failing operation")
                if left is not None:
                    valid[left] = False
            compare("operation %d" % n, o, out[:2], w)
            operands("operation %d" % n, o["k"], left)
            if "buf" in q and isinstance(q["buf"], np.ndarray):
                if exact({"a": q["buf"]}, {"a": angle(o["a"])}):
                    run.bad("operand changed", "operation %d (%s) changed the angles" % (n, o["k"]))
                angles[...] = -3.3e33
                if out[0] == "ok" and hasattr(box["r"], "x"):
                    d = exact(util.flat(data(box["r"])), out[1])
                    if d:
                        run.bad("result changed", "operation %d (%s): overwriting the angles changed the result: %s" % (n, o["k"], d))
            if out[0] == "ok" and left is None:
                r = box["r"]
                if o.get("keep"):
                    pool.append(r)
                    valid.append(True)
                    before = snap()
                elif o.get("scribble"):
                    run.fault("result overwritten")
                    disturbed += 1
                    for a in arrays(r):
                        if a.flags.writeable:
                            a[...] = -3.3e33
                    for d in [r.dx, r.dy, r.dz] if hasattr(r, "x") else r if isinstance(r, tuple) else []:
                        d.pop(sorted(d)[0])
                    operands("overwriting the result of operation %d" % n, o["k"])
                else:
                    kept.append((n, r, out[1]))
            elif o.get("keep"):
                pool.append(make(plan["vecs"][0]))
                valid.append(False)
                before = snap()
            if o.get("bufs"):
                run.fault("buffers overwritten")
                disturbed += 1
                for b, _ in bufs:
                    if isinstance(b, np.ndarray):
                        b[...] = 7.7e33
                    else:
                        for c in b:
                            if isinstance(c, np.ndarray):
                                c[...] = 7.7e33
                            elif isinstance(c, list):
                                c[:] = [7.7e33] * len(c)
                for ders, _ in given:
                    for a in arrays(ders):
                        a[...] = 7.7e33
                bufs[:] = [(b, [np.array(v) for v in b]) for b, _ in bufs]
                given[:] = [(ders, util.flat(ders)) for ders, _ in given]
                operands("overwriting the caller's buffers after operation %d" % n, o["k"])
            run.sched += "%s%d;" % (o["k"], o["i"])
            if len(run.viol) > 3:
                return run
        if plan["threads"]:
            tw = want[len(plan["ops"]):]
            base = [make(s) for s in plan["vecs"]]
            pool[:], valid[:] = base, [True] * len(base)
            before = snap()
            s = sched.Scheduler(REPO, gen.resolve(plan["pts"], sum(t[1] for t in tw if t)))

            def body(th):
                def go():
                    res = []
                    for o in th:
                        res.append(util.outcome(lambda: data(apply(o, base[o["i"]], base[o["j"]] if isinstance(o.get("j"), int) else o.get("j")))) if self.fits(base, o) else None)
                        sched.rearm()
                    return res

                return go

            outs = s.run([body(th) for th in plan["threads"]])
            run.fault("preemption", len(s.switches))
            disturbed += len(s.switches) > len(plan["threads"])
            i = 0
            for t, (th, out) in enumerate(zip(plan["threads"], outs)):
                if out[0] == "exc":
                    run.bad("no-progress" if isinstance(out[1], sched.Deadlock) else "result", "thread %d ended with %r" % (t, out[1]))
                    i += len(th)
                    continue
                for o, r in zip(th, out[1]):
                    if r is not None and tw[i] is not None:
                        compare("thread %d" % t, o, r[:2], tw[i][0])
                    i += 1
            operands("the threads", "")
            run.sched += str(s.switches)
            run.steps += s.ev
        run.nontrivial = disturbed > 0 and compared >= 2
        return run
