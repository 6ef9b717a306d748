"""The driver: seeds -> plans -> simulated runs -> verdict, minimised replay file, evidence.

A world (worlds/cNN.py) provides
   gen(rng, tier)            plan: JSON, everything that will happen in one run
   oracle(plan)              list of jobs (JSON) whose results the run is compared with
   answer(job)               computes one job; executed in a process forked from the pristine parent
   run(plan, want)           executes the plan, returns Run; executed in a process of its own, too
Every run is therefore a pure function of its plan and the code under test.
"""
import json, os, pickle, select, shutil, signal, struct, sys, time, traceback
from . import boot, util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Run:
    def __init__(self):
        self.viol = []  # {"kind","detail"}
        self.log = []  # event log
        self.faults = {}  # fault kind -> times it fired
        self.ops = {}  # operation kind -> times executed
        self.probes = {}  # rare conditions reached
        self.sched = ""  # digest input of the interleaving / state measure
        self.simtime = 0.0
        self.nontrivial = False
        self.steps = 0

    def bad(self, kind, detail):
        self.viol.append({"kind": kind, "detail": str(detail)[:600]})
        self.log.append("VIOLATION %s" % kind)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def op(self, kind, n=1):
        self.ops[kind] = self.ops.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def ev(self, *a):
        self.log.append(" ".join(str(x) for x in a))


class Hang(Exception):
    pass


class ChildError(Exception):
    pass


def in_child(fn, timeout, quiet=True):
    """Runs fn in a forked process and returns its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            if quiet:
                n = os.open(os.devnull, os.O_RDWR)
                os.dup2(n, 0)
                os.dup2(n, 1)
                if not os.environ.get("SIM_DEBUG"):
                    os.dup2(n, 2)
                os.close(n)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:
                data = pickle.dumps(("error", traceback.format_exc()))
            mv = memoryview(data)
            while mv:
                k = os.write(w, mv)
                mv = mv[k:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL) if hung else None
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Hang()
    data = b"".join(chunks)
    if not data:
        raise ChildError("process ended without a result, status %d" % st)
    kind, val = pickle.loads(data)
    if kind == "error":
        raise ChildError(val)
    return val


def _own(fn, *a):
    """An error that leaves the code under test where the worlds expect none is a finding, not trouble of the harness."""
    from .build import REPO

    try:
        return fn(*a)
    except (OSError, MemoryError):
        raise
    except Exception as e:
        fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        ours = max([i for i, f in enumerate(fr) if f.startswith(HERE + "/")] + [-1])
        if not any(f.startswith(REPO + "/ccblade/") for f in fr[ours + 1 :]):
            raise
        r = Run()
        r.bad("unexpected error", "%s: %s (%s)" % (type(e).__name__, e, " < ".join("%s:%s" % (f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[::-1][:6])))
        return r


class Harness:
    def __init__(self, world, tier, seed, scratch):
        self.world, self.tier, self.seed, self.scratch = world, tier, seed, scratch
        self.timeout = getattr(world, "TIMEOUT", 60)

    def plan(self, i):
        rng = util.rng_for(self.world.ID, self.seed, i)
        return json.loads(json.dumps(self.world.gen(rng, self.tier)))

    def execute(self, plan):
        """Run, with violations; raises ChildError/Hang for problems of the harness itself."""
        w = self.world
        want = []
        for job in w.oracle(plan):
            a = in_child(lambda: (boot.fresh(), _own(w.answer, job))[1], 120)
            if isinstance(a, Run):
                return a
            want.append(a)
        for attempt in (1, 2):
            d = os.path.join(self.scratch, "run")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

            def go():
                os.chdir(d)
                w.scratch = d
                boot.fresh()
                return _own(w.run, plan, want)

            try:
                return in_child(go, self.timeout * attempt)
            except Hang:
                if attempt == 2:
                    r = Run()
                    r.bad("no-progress", "the run did not end within %d s" % (self.timeout * 2))
                    return r
            finally:
                shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- minimisation


def _lists(world, plan):
    return [k for k in getattr(world, "SHRINK", ("ops",)) if isinstance(plan.get(k), list)]


def minimise(h, plan, kind, budget):
    end = time.monotonic() + budget
    tried = 0

    def fails(p):
        nonlocal tried
        if time.monotonic() > end:
            return False
        tried += 1
        try:
            return any(v["kind"] == kind for v in h.execute(p).viol)
        except (ChildError, Hang, Exception):
            return False

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for key in _lists(h.world, plan):
            n = 2
            while len(plan[key]) >= 1 and time.monotonic() < end:
                items = plan[key]
                size = max(1, len(items) // n)
                hit = False
                for s in range(0, len(items), size):
                    p = dict(plan, **{key: items[:s] + items[s + size :]})
                    if fails(p):
                        plan, hit, changed = p, True, True
                        break
                if hit:
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
        simplify = getattr(h.world, "simplify", None)
        if simplify:
            progress = True
            while progress and time.monotonic() < end:
                progress = False
                for p in simplify(plan):
                    if fails(p):
                        plan, progress, changed = p, True, True
                        break
    return plan, tried


# ---------------------------------------------------------------- batches


def _worker(world, tier, seed, scratch, nxt, runs, out, stop, deadline, keep):
    h = Harness(world, tier, seed, scratch)
    while True:
        with nxt.get_lock():  # in order, whoever is free: a run depends on its number only
            i = nxt.value
            nxt.value += 1
        if i >= runs or time.monotonic() > deadline:
            break
        if stop.value >= 0 and i > stop.value:
            break
        try:
            plan = h.plan(i)
            r = h.execute(plan)
        except (ChildError, Hang) as e:
            out.put((i, "error", "run %d: %s" % (i, e)))
            continue
        except Exception:
            out.put((i, "error", "run %d: %s" % (i, traceback.format_exc())))
            continue
        if r.viol:
            with stop.get_lock():
                if stop.value < 0 or i < stop.value:
                    stop.value = i
        out.put((i, "run", dict(viol=r.viol, faults=r.faults, ops=r.ops, probes=r.probes, nontrivial=r.nontrivial, simtime=r.simtime, steps=r.steps,
                                dig=util.digest(r.log), sched=util.digest(r.sched), sig=util.digest([plan.get("sig"), r.ops, r.faults, r.sched]),
                                sample=plan if i < keep else None, nlog=len(r.log))))
    out.put((None, "done", None))


def batch(world, tier, seed, runs, jobs, wall, scratch, keep=2):
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    out, stop, nxt = ctx.Queue(), ctx.Value("l", -1), ctx.Value("l", 0)
    t0 = time.monotonic()
    ps = []
    for w in range(jobs):
        d = os.path.join(scratch, "w%d" % w)
        os.makedirs(d, exist_ok=True)
        p = ctx.Process(target=_worker, args=(world, tier, seed, d, nxt, runs, out, stop, t0 + wall, keep))
        p.start()
        ps.append(p)
    res, errors, done = {}, [], 0
    while done < jobs:
        try:
            i, kind, val = out.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and out.empty():
                errors.append("a worker died")
                break
            continue
        if kind == "done":
            done += 1
        elif kind == "error":
            errors.append(val)
        else:
            res[i] = val
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    return res, errors, time.monotonic() - t0


def _sum(res, key):
    t = {}
    for r in res.values():
        for k, v in r[key].items():
            t[k] = max(t.get(k, 0), v) if k.startswith("most ") else t.get(k, 0) + v
    return dict(sorted(t.items()))


def known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": []}


def is_known(prop, v):
    for f in known().get("findings", []):
        if f.get("property") == prop and f.get("kind") == v["kind"] and f.get("match", "\0") in v["detail"]:
            return f
    return None


def main_check(world, args, scratch):
    tier, seed = args.tier, args.seed
    conf = world.QUICK if tier == "quick" else world.THOROUGH
    runs = args.runs or conf["runs"]
    wall = args.wall or conf["wall"]
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    print("%s: seed %d, tier %s, %d runs, %d jobs" % (world.ID, seed, tier, runs, jobs), flush=True)
    t0 = time.monotonic()
    res, errors, dt = batch(world, tier, seed, runs, jobs, wall, scratch)
    bad = sorted(i for i, r in res.items() if r["viol"])
    status, replay_path, mininfo = 0, None, None
    for i in list(bad):
        ks = [is_known(world.ID, v) for v in res[i]["viol"]]
        if all(ks):
            for k in ks:
                print("KNOWN-FINDING: property=%s %s" % (world.ID, k["what"]))
            bad.remove(i)
    if bad:
        i = bad[0]
        h = Harness(world, tier, seed, os.path.join(scratch, "min"))
        os.makedirs(h.scratch, exist_ok=True)
        plan = h.plan(i)
        v = [x for x in res[i]["viol"] if not is_known(world.ID, x)][0]
        print("run %d: %s: %s" % (i, v["kind"], v["detail"]), flush=True)
        small, tried = minimise(h, plan, v["kind"], args.min_s)
        r = h.execute(small)
        got = [x for x in r.viol if x["kind"] == v["kind"]]
        if not got:
            small, r = plan, h.execute(plan)
            got = [x for x in r.viol if x["kind"] == v["kind"]]
        d = os.environ.get("SIM_OUT") or os.path.join(HERE, "out")
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, "%s-seed%d-run%d.json" % (world.ID, seed, i))
        with open(replay_path, "w") as f:
            json.dump(dict(property=world.ID, seed=seed, run=i, tier=tier, violation=(got or [v])[0], plan=small, log_digest=util.digest(r.log), log=r.log[-400:],
                           original_sizes={k: len(plan[k]) for k in _lists(world, plan)}, minimised_sizes={k: len(small[k]) for k in _lists(world, small)}), f, indent=1)
        mininfo = dict(executions=tried)
        if not got:
            print("the failing run did not fail again: the harness is not deterministic", file=sys.stderr)
        status = 1
        print("minimised (%d executions): %s" % (tried, {k: "%d->%d" % (len(plan[k]), len(small[k])) for k in _lists(world, plan)}))
        print((got or [v])[0]["detail"])
    if errors and status == 0:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        print("%d harness errors" % len(errors), file=sys.stderr)
        status = 2
    if status == 0 and len(res) < max(10, runs // 20):
        print("only %d of %d runs done in %d s" % (len(res), runs, wall), file=sys.stderr)
        status = 2
    n = len(res)
    sigs = {r["sig"] for r in res.values() if r["nontrivial"]}
    cov = dict(
        evaluations=n,
        distinct_nontrivial=len(sigs),
        rule=world.RULE,
        samples=[r["sample"] for i, r in sorted(res.items()) if r["sample"]][:2],
        planned_runs=runs,
        runs_and_seeds_per_hour=int(n / max(dt, 1e-9) * 3600),  # every run has its own seed
        simulated_time_s=round(sum(r["simtime"] for r in res.values()), 3),
        simulated_steps=sum(r["steps"] for r in res.values()),
        faults_injected=_sum(res, "faults"),
        operations=_sum(res, "ops"),
        probes=_sum(res, "probes"),
        distinct_interleavings_or_states=len({r["sched"] for r in res.values()}),
        interleaving_measure=world.MEASURE,
        event_log_digest=util.digest([res[i]["dig"] for i in sorted(res)]),
        events_logged=sum(r["nlog"] for r in res.values()),
        real_components=world.REAL,
        stub_components=world.STUB,
    )
    if mininfo:
        cov["minimisation"] = mininfo
    ev = dict(property=world.ID, tier=tier, seed=seed, level=getattr(world, "LEVEL", "exploration"), coverage=cov, assumptions=world.ASSUME, wall_s=round(time.monotonic() - t0, 2), violations=len(bad))
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", world.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%d runs in %.1f s, %d distinct non-trivial, faults %s" % (n, dt, len(sigs), cov["faults_injected"]))
    print("probes %s" % cov["probes"])
    print("event log digest %s" % cov["event_log_digest"])
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (world.ID, replay_path), flush=True)
    elif status == 0:
        print("%s: held on everything explored" % world.ID)
    return status


def main_replay(world, path, scratch):
    with open(path) as f:
        rec = json.load(f)
    h = Harness(world, rec.get("tier", "quick"), rec.get("seed", 0), scratch)
    r = h.execute(rec["plan"])
    for line in r.log[-60:]:
        print("  " + line)
    kinds = [v["kind"] for v in r.viol]
    for v in r.viol:
        print("%s: %s" % (v["kind"], v["detail"]))
    if not r.viol:
        print("no violation on replay")
        return 0
    same = util.digest(r.log) == rec.get("log_digest")
    print("replay %s" % ("reproduced the recorded run exactly" if same and rec["violation"]["kind"] in kinds else "fails, but differs from the recorded run"))
    print("VIOLATION property=%s replay=%s" % (world.ID, path))
    return 1
