"""C05: operating points can be split, reordered, repeated and shipped to workers.

A discrete-event cluster: a coordinator cuts a batch of operating points into tasks and sends each,
with a serialised rotor, to workers (real processes) over a network that loses, duplicates and
delays messages; workers crash before or after working and are restarted; tasks are sent again after
a timeout.  Model: every point alone, on a fresh rotor in a pristine process.
"""
import copy, heapq, pickle
import numpy as np
from sim import abort, gen, procs, util
from .base import REPO, Base, Run, log_int, same

DIAG = ("dUinf", "dOmega", "dpitch")
BAD = (float("nan"), float("inf"), 0.0, -6.0, 1e9)


def point_of(flatres, j, npt):
    """The part of a flattened evaluate() result that belongs to point j; text if points leak into each other."""
    out = {}
    for k, v in flatres.items():
        if k == "/0/W":
            continue
        if not isinstance(v, np.ndarray) or v.ndim < 1 or v.shape[0] != npt:
            return "%s has shape %s for %d points" % (k, getattr(v, "shape", None), npt)
        if k.rsplit("/", 1)[1] in DIAG:
            if v.shape != (npt, npt):
                return "%s has shape %s for %d points" % (k, v.shape, npt)
            off = np.delete(v[j], j)
            if (off != 0.0).any():
                return "%s: point %d depends on the condition of another point: %s" % (k, j, v[j])
            out[k] = v[j, j].reshape(1, 1)
        else:
            out[k] = v[j : j + 1]
    return out


def handler(state, req):
    if "blob" in req:
        state["rotor"] = pickle.loads(req["blob"])
    q = req["q"]
    return util.flat(state["rotor"].evaluate([p[0] for p in q], [p[1] for p in q], [p[2] for p in q], coefficients=req["coef"]))


class World(Base):
    ID = "C05"
    QUICK = {"runs": 700, "wall": 50}
    THOROUGH = {"runs": 40000, "wall": 800}
    SHRINK = ("tasks", "msgs", "crashes", "history")
    RULE = ("a run is a batch of 3-75 operating points, some next to each other, cut into 1-6 tasks for 1-3 workers, with 0-30 message faults, 0-3 crashes and a rotor that is fresh, used or interrupted when it is serialised; "
            "non-trivial: at least two tasks, or one with several points, were merged and something was lost, doubled, delayed, crashed, or the rotor had a history")
    MEASURE = "distinct digests of the event sequence (deliveries, losses, crashes, retries, merges)"
    STUB = ["network, timers and the coordinator/worker program (the package has none; the rotors in them are real)"]

    def gen(self, rng, tier):
        naf = rng.choice([1, 2, 3])
        afs = [gen.af_spec(rng) for _ in range(naf)]
        s = gen.rotor_spec(rng, naf, n=rng.choice([3, 3, 4]), small=True)
        coef = rng.random() < 0.4
        pts = [gen.cond(rng, s, parked=False if coef and s["deriv"] else None) for _ in range(rng.randint(3, 9))]
        if rng.random() < 0.1:  # a long batch
            pts += [gen.cond(rng, s, parked=False if coef and s["deriv"] else None) for _ in range(rng.choice([12, 25, 60]))]
        if rng.random() < 0.35:  # neighbours of other points
            for _ in range(rng.choice([1, 2, 4])):
                q = list(pts[rng.randrange(len(pts))])
                j, e = rng.randrange(3), 10.0 ** rng.uniform(-13, -1.5) * rng.choice([-1, 1])
                q[j] = q[j] * (1.0 + e) if rng.random() < 0.5 else q[j] + e
                if not (coef and s["deriv"] and 0.0 in q[:2]):
                    pts.insert(rng.randrange(len(pts) + 1), q)
        if rng.random() < 0.3:  # idle, parked or odd points among the others
            for _ in range(rng.choice([1, 1, 2])):
                U, Om, p = pts[rng.randrange(len(pts))]
                x = rng.choice([[0.0, 0.0, p], [0.0, Om, p], [U, 0.0, 90.0], [U, 0.0, p], [-U, Om, p], [U, Om, -p], [0.0, 0.0, 0.0]])
                if not (coef and s["deriv"] and 0.0 in x[:2]):
                    pts[rng.randrange(len(pts))] = x
        if rng.random() < 0.25:  # points given in whole numbers, also of that type
            for j in range(len(pts)):
                if rng.random() < 0.7:
                    pts[j] = [int(round(v)) for v in pts[j]]
                    if coef and s["deriv"] and 0 in pts[j][:2]:
                        pts[j] = [9, 8, 1]
        bad = []
        if rng.random() < 0.25:
            j = rng.randrange(len(pts))
            pts[j] = list(pts[j])
            pts[j][rng.randrange(3)] = rng.choice(["nan", "inf", 0.0, -6.0, 1e9])
            bad = [pts[j]]
        order = list(range(len(pts))) + [rng.randrange(len(pts)) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.6:  # else neighbours together
            rng.shuffle(order)
        whole = rng.random() < 0.2
        tasks, i = [], 0
        while i < len(order):
            k = len(order) if whole or (len(order) > 12 and rng.random() < 0.3) else rng.choice([1, 1, 2, 3, 5])
            tasks.append([pts[j] for j in order[i : i + k]])
            i += k
        nw = rng.choice([1, 2, 2, 3])
        msgs = []
        if rng.random() < 0.8:
            for _ in range(rng.randint(1, 30)):
                x = rng.random()
                msgs.append([round(rng.choice([0.01, 0.1, 1.0, 5.0, 30.0]) * (0.5 + rng.random()), 4), "lose" if x < 0.25 else "dup" if x < 0.45 else "ok"])
        crashes = [[rng.randrange(nw), rng.randint(0, 6), rng.choice(["before", "after"])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        hist = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            o = gen.rotor_op(rng, s, inverse=False)
            if rng.random() < 0.4:
                o["abort"] = log_int(rng, 3, 4000)
            hist.append(o)
        inv = None
        if rng.random() < 0.12:  # a rotor set up for inverse design
            while inv is None or inv["op"] != "inverse":
                inv = gen.rotor_op(rng, s)
        return {"afs": afs, "inv": inv, "rotor": s, "coef": coef, "tasks": tasks, "nw": nw, "msgs": msgs, "crashes": crashes, "history": hist, "bad": bad,
                "ship": rng.choice(["pickle2", "pickle4", "pickle5", "deepcopy", "pickle5"]), "resend": rng.choice(["always", "once"]), "sig": util.digest([afs, s, pts])}

    def _pt(self, p):
        return [x if isinstance(x, int) else float(x) for x in p]

    def oracle(self, plan):
        seen, jobs = set(), []
        for t in plan["tasks"]:
            for p in t:
                if str(p) not in seen:
                    seen.add(str(p))
                    jobs.append({"afs": plan["afs"], "rotor": plan["rotor"], "coef": plan["coef"], "p": p, "inv": plan["inv"]})
        return jobs

    def answer(self, job):
        r = gen.make_rotor(job["rotor"], [gen.make_af(a) for a in job["afs"]])
        p = [float(x) for x in job["p"]]
        if job["inv"]:
            gen.set_inverse(r, job["inv"])
        out = util.outcome(r.evaluate, [p[0]], [p[1]], [p[2]], coefficients=job["coef"])
        return (str(job["p"]), out if out[0] == "ok" else ("exc", out[1]))

    def run(self, plan, want):
        run = Run()
        model = dict(want)
        pool = [procs.Remote(handler) for _ in range(plan["nw"] + len(plan["crashes"]))]  # before anything else happens
        workers = [pool.pop() for _ in range(plan["nw"])]
        rotor = gen.make_rotor(plan["rotor"], [gen.make_af(a) for a in plan["afs"]])
        for o in plan["history"]:
            if "abort" in o:
                fired, _, err, _, where = abort.run_with(REPO, o["abort"], "KeyboardInterrupt", lambda: gen.do_op(rotor, o))
                if fired:
                    run.fault("interrupt before shipping")
                run.ev("history", o["op"], where if fired else "")
            else:
                util.outcome(gen.do_op, rotor, o)
                run.ev("history", o["op"])
        if plan["inv"]:
            gen.set_inverse(rotor, plan["inv"])
        if plan["ship"] == "deepcopy":
            blob = pickle.dumps(copy.deepcopy(rotor))
        else:
            blob = pickle.dumps(rotor, int(plan["ship"][-1]))
        # ---- discrete-event simulation
        now, seq, heap = 0.0, 0, []
        msgs = list(plan["msgs"])
        crashes = {(w, n): when for w, n, when in plan["crashes"]}
        handled = [0] * plan["nw"]
        has_rotor = [False] * plan["nw"]
        merged = {}

        def post(t, *ev):
            nonlocal seq
            seq += 1
            heapq.heappush(heap, (t, seq, ev))

        def send(*ev):
            d, what = msgs.pop(0) if msgs else (0.01, "ok")
            if what == "lose":
                run.fault("message lost")
                return
            if d > 0.2:
                run.fault("message delayed")
            post(now + d, *ev)
            if what == "dup":
                run.fault("message duplicated")
                post(now + d * 1.7 + 0.003, *ev)

        tries = [0] * len(plan["tasks"])

        def submit(i):
            w = (i + tries[i]) % plan["nw"]
            tries[i] += 1
            send("task", i, w, plan["resend"] == "always" or tries[i] > 1 or not has_rotor[w])
            post(now + 20.0, "timeout", i)

        for i in range(len(plan["tasks"])):
            submit(i)
        while heap and seq < 2000:
            now, _, ev = heapq.heappop(heap)
            run.steps += 1
            if ev[0] == "timeout":
                if ev[1] not in merged:
                    run.fault("retry")
                    submit(ev[1])
            elif ev[0] == "restart":
                run.sched += "restart %d;" % ev[1]
            elif ev[0] == "task":
                _, i, w, withrotor = ev
                if workers[w] is None:
                    continue  # nobody listens
                if not withrotor and not has_rotor[w]:
                    continue  # a restarted worker does not know the rotor: no answer, the task is sent again
                when = crashes.pop((w, handled[w]), None)
                handled[w] += 1
                run.sched += "task %d@%d %s;" % (i, w, when or "")
                if when == "before":
                    ans = None
                else:
                    req = {"q": [self._pt(p) for p in plan["tasks"][i]], "coef": plan["coef"]}
                    if withrotor:
                        req["blob"] = blob
                    ans = workers[w].call(req)
                    run.op("task executed")
                    has_rotor[w] = True
                if when:
                    run.fault("worker crash")
                    workers[w].kill()
                    workers[w] = pool.pop()
                    has_rotor[w] = False
                    post(now + 0.5, "restart", w)
                    if when == "before":
                        continue
                    continue
                send("reply", i, ans)
            elif ev[0] == "reply":
                _, i, ans = ev
                run.sched += "merge %d;" % i
                if i in merged:
                    if merged[i][0] != ans[0] or (ans[0] == "ok" and same(ans[1], merged[i][1], skip=("/0/W",))):
                        run.bad("repetition", "task %d gave %s the second time: %s" % (i, "something else", same(ans[1], merged[i][1]) if ans[0] == "ok" == merged[i][0] else (merged[i][0], ans[0], str(ans[1])[:100])))
                else:
                    merged[i] = ans
                    run.ev("%.4f" % now, "merged", i, ans[0], util.sig_of(ans[1]) if ans[0] == "ok" else ans[1])
        run.simtime = now
        for w in workers + pool:
            w.kill()
        bad = [str(b) for b in plan["bad"]]
        compared = 0
        for i, t in enumerate(plan["tasks"]):
            if i not in merged:
                run.bad("no-progress", "task %d is not done %d events after the start" % (i, seq))
                continue
            ans = merged[i]
            hasbad = any(str(p) in bad for p in t)
            exp = [model[str(p)] for p in t]
            if ans[0] == "exc":
                if not any(e[0] == "exc" for e in exp):
                    run.bad("error", "task %d (%s) failed: %s; each of its points succeeds alone" % (i, t, ans[1]))
                continue
            for j, p in enumerate(t):
                if str(p) in bad and any(isinstance(x, str) for x in p):
                    continue
                if exp[j][0] == "exc":
                    run.bad("error", "task %d: point %s succeeds in a batch, alone it fails with %s" % (i, p, exp[j][1]))
                    continue
                g = point_of(ans[1], j, len(t))
                x = point_of(exp[j][1], 0, 1)
                d = g if isinstance(g, str) else x if isinstance(x, str) else same(g, x)
                if d:
                    run.bad("answer", "task %d, point %d of %d (%s): %s" % (i, j, len(t), p, d))
                compared += 1
            if hasbad:
                run.probe("batch with a point that cannot be evaluated")
        multi = len(plan["tasks"]) >= 2 or max([len(t) for t in plan["tasks"]] + [0]) >= 2
        run.nontrivial = bool(compared >= 2 and multi and (run.faults or plan["history"]))
        run.probe("points compared", compared)
        return run
