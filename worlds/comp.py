"""Shared by C14 and C15: problems of OpenMDAO components, used in every order and with faults.

Model: what a component delivers is what a freshly set-up problem with this one component delivers
for the inputs the component holds, computed in a process that has done nothing else.
"""
import copy
import os
import numpy as np
from sim import abort, gen, procs, simaf, util
from .base import REPO, Base, Run, log_int

NAOA = 21
SC = ["V_load", "Omega_load", "pitch_load", "azimuth_load", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurveTip", "presweepTip", "rho", "mu", "shearExp"]
VEC = ["r", "chord", "theta", "precurve", "presweep"]
DISC = ["nBlades", "nSector", "tiploss", "hubloss", "wakerotation", "usecd"]
OUT = {"loads": ["loads_Px", "loads_Py", "loads_Pz", "loads_r"], "evaluate": ["P", "Mb", "Fhub", "Mhub", "CP", "CMb", "CFhub", "CMhub"], "geometry": ["R", "diameter", "precurveTip", "presweepTip"],
       "twist": ["theta", "CP", "CM", "local_airfoil_velocities", "P", "T", "Q", "M", "a", "ap", "alpha", "cl", "cd", "cl_n_opt", "cd_n_opt", "Px_b", "Py_b", "Pz_b", "Px_af", "Py_af", "Pz_af", "LiftF", "DragF", "L_n_opt", "D_n_opt"]}
TOF = {"loads": ["loads_Px", "loads_Py", "loads_r"], "evaluate": OUT["evaluate"], "geometry": OUT["geometry"]}
TWRT = {"loads": ["V_load", "Omega_load", "pitch_load", "azimuth_load", "r", "chord", "theta", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "shearExp"],
        "evaluate": ["V_load", "Omega_load", "pitch_load", "r", "chord", "theta", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "precurveTip", "presweep", "presweepTip", "shearExp"],
        "geometry": ["Rtip", "precurve_in", "presweep_in", "precone"]}
ZERO = ("yaw", "tilt", "precone", "shearExp", "pitch_load", "pitch", "azimuth_load", "V_load", "Uhub", "Omega_load", "tsr", "precurveTip", "presweepTip")
SHARED = ["V_load", "pitch_load", "yaw"]


def af_tables(v, n_span, n_re, n_tab):
    """Variant v of the airfoil inputs (2 to 5: like 0 but for one thing)"""
    u, v = v, v if v in (1, 9) else 0
    al = np.concatenate(([-180.0, -120, -60], np.linspace(-24, 24, NAOA - 6), [60.0, 120, 180]))
    a = np.radians(al)[None, :, None, None]
    k = (np.arange(n_span)[:, None, None, None] * 0.07 + 0.11 * v) + 0.04 * np.arange(n_re)[None, None, :, None] + 0.05 * np.arange(n_tab)[None, None, None, :]
    w = 1 / (1 + np.exp((np.abs(al)[None, :, None, None] - 19.0) / 2.5))  # attached
    cl = w * (1.3 + 0.2 * k) * np.tanh(5.9 * (a + 0.04) / (1.3 + 0.2 * k)) + (1 - w) * (1.1 + 0.2 * k) * np.sin(2 * a)
    cd = w * (0.01 * (1 + k) + 0.015 * np.maximum(np.abs(np.degrees(a)) - 2.0 - 4.0 * v - 10 * k, 0.0)) + (1 - w) * (0.05 + 1.3 * np.sin(a) ** 2)
    cm = w * (-0.05 * (1 + k) - 0.03 * a) + (1 - w) * (-0.35 * np.sin(a))
    Re = np.array([1e6, 8e6][:n_re])
    if u == 2:
        cd = cd + 0.02
    if u == 3:
        cm = cm * np.where(al[None, :, None, None] > 4, 1.5, 0.8)
    if u == 4:
        Re = Re * 1.3
        al[NAOA // 2] += 0.4
    if u == 5:
        cl[1:2, NAOA // 2:NAOA // 2 + 3] = np.nan
    return {"airfoils_aoa": al, "airfoils_Re": Re, "airfoils_cl": cl, "airfoils_cd": cd, "airfoils_cm": cm}


def defaults(rng, kind, n):
    R = round(rng.uniform(35, 60), 2)
    cols = {"r": [round(3 + (R - 5) * i / (n - 1), 3) for i in range(n)], "chord": [round(4 - 2.5 * i / (n - 1) + rng.uniform(-.2, .2), 3) for i in range(n)],
            "theta": [round(12 * (1 - i / (n - 1)) ** 2 + rng.uniform(-1, 1), 3) for i in range(n)], "precurve": [round(-1.5 * (i / (n - 1)) ** 2, 3) for i in range(n)], "presweep": [round(0.7 * (i / (n - 1)) ** 2, 3) for i in range(n)]}
    U = round(rng.uniform(6, 14), 2)
    d = {"V_load": U, "Omega_load": round(rng.uniform(5, 9) * U / R * 30 / np.pi, 3), "pitch_load": round(rng.uniform(-1, 6), 2), "azimuth_load": round(rng.uniform(0, 360), 1), "Rhub": 1.8, "Rtip": R, "hub_height": 90.0, "precone": 2.5, "tilt": 5.0,
         "yaw": rng.choice([0.0, 4.0]), "precurveTip": -1.6, "presweepTip": 0.8, "rho": 1.225, "mu": 1.81e-5, "shearExp": rng.choice([0.0, 0.2]), "nBlades": 3, "nSector": 4, "tiploss": True, "hubloss": True, "wakerotation": True, "usecd": True, "v": 0, **cols}
    if kind == "geometry":
        return {"Rtip": R, "precurve_in": cols["precurve"], "presweep_in": cols["presweep"], "precone": 2.5}
    if kind == "loads":
        for k in ("presweep", "presweepTip"):
            del d[k]
    if kind == "evaluate":
        del d["azimuth_load"]
    if kind == "twist":
        for k in ("V_load", "Omega_load", "pitch_load", "azimuth_load"):
            del d[k]
        d["theta_in"] = [round(np.radians(t), 5) for t in d.pop("theta")]
        d.update(Uhub=U, tsr=round(rng.uniform(6, 9), 2), pitch=round(rng.uniform(-1, 2), 2), s_opt_theta=[0.0, 0.35, 0.7, 1.0], s_opt_chord=[0.0, 0.35, 0.7, 1.0], aoa_op=[rng.choice([np.pi, round(rng.uniform(0.05, 0.12), 4)]) for _ in range(n)],
                 rthick=[100.0] + [round(40 - 22 * i / (n - 1), 1) for i in range(1, n)])
    return d


def change(rng, kind, d):
    """A new value for one input: (name, value)"""
    k = rng.choice(sorted(d))
    if k in ("V_load", "Uhub", "Omega_load", "pitch_load", "pitch") or rng.random() < 0.25:
        k = rng.choice([x for x in ("V_load", "Omega_load", "pitch_load", "Uhub", "tsr", "pitch", "Rtip", "precone") if x in d])
    x = d[k]
    if rng.random() < 0.06 and "mu" in d:
        return "mu", round(d["mu"] * rng.uniform(0.97, 1.03), 9)
    if rng.random() < 0.12 and k not in DISC and k not in ("v", "aoa_op", "s_opt_theta", "s_opt_chord", "rthick", "r"):  # hardly at all
        f = rng.choice([1.0004, 0.99999, 1.0000003])
        if not isinstance(x, list):
            return k, x * f if x else 0.0004
        i = rng.randrange(len(x))
        return k, x[:i] + [x[i] * f if x[i] else 0.0004] + x[i + 1:]
    if k == "v" or rng.random() < 0.05 and "v" in d:
        return "v", rng.choice([v for v in (0, 1, 2, 2, 3, 4, 5) if v != d["v"]])
    if k in ZERO and x != 0 and rng.random() < 0.15:
        return k, 0.0
    if k == "nBlades":
        return k, 5 - x
    if k == "nSector":
        return k, 10 - x
    if isinstance(x, bool):
        return k, not x
    if k == "aoa_op":
        return k, [0.08 if abs(v - np.pi) < 1e-3 else np.pi for v in x]
    if k in ("s_opt_theta", "s_opt_chord"):
        return k, [0.0, round(rng.uniform(0.2, 0.4), 2), round(rng.uniform(0.6, 0.8), 2), 1.0]
    if k == "r":
        return k, [round(v * 0.97, 4) for v in x]
    if isinstance(x, list) and k in ("theta", "theta_in", "precurve", "presweep", "precurve_in", "presweep_in") and rng.random() < 0.2:
        if k[:5] != "theta" or rng.random() < 0.4:
            return k, [0.0 if any(x) else round(0.1 * i, 2) for i in range(len(x))]
        i = rng.randrange(len(x))
        return k, x[:i] + [round(rng.choice([75.0, -20.0, 35.0]) * (1 if k == "theta" else np.pi / 180), 6)] + x[i + 1:]
    if isinstance(x, list):
        return k, [round(v * rng.uniform(0.9, 1.1) + (0.01 if v == 0 and k != "rthick" else 0), 5) for v in x]
    if k in ("yaw", "shearExp"):
        return k, round(rng.choice([0.0, rng.uniform(0.05, 0.3) if k == "shearExp" else rng.uniform(1, 8)]), 3)
    return k, round(x * rng.uniform(0.92, 1.08) + (0.7 if k in ("pitch_load", "pitch", "precone", "tilt", "azimuth_load") else 0.0), 8)


def values(spec, d):
    """Inputs of a component as arrays"""
    v = {k: (x if k in DISC else np.array(x, dtype=float)) for k, x in d.items() if k != "v"}
    if "v" in d:
        v.update(af_tables(d["v"], spec["n"], spec["re"], spec["tab"]))
    return v


def make(spec):
    from ccblade import ccblade_component as m

    opt = {"WISDEM": {"RotorSE": {"n_span": spec["n"], "n_aoa": NAOA, "n_Re": spec["re"], "n_tab": spec["tab"], "inn_af": spec.get("inn", False)}}}
    k = spec["kind"]
    if k == "geometry":
        return m.CCBladeGeometry(n_span=spec["n"])
    if k == "loads":
        return m.CCBladeLoads(modeling_options=opt)
    if k == "evaluate":
        return m.CCBladeEvaluate(modeling_options=opt)
    oo = {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": 4}, "twist": {"n_opt": 4, "inverse": spec["inverse"], "flag": False}}}}, "constraints": {"blade": {"stall": {"margin": 0.05}}}}
    return m.CCBladeTwist(modeling_options=opt, opt_options=oo)


def problem(specs, share):
    import openmdao.api as om

    p = om.Problem(reports=False)
    for j, s in enumerate(specs):
        pr = [x for x in SHARED if share and x in s["has"]]
        p.model.add_subsystem("c%d" % j, make(s), promotes_inputs=pr or None)
    p.setup()
    return p


def name(share, j, k):
    return k if share and k in SHARED else "c%d.%s" % (j, k)


def put(p, share, j, vals):
    for k, v in vals.items():
        p[name(share, j, k)] = v


def held(c):
    """The inputs a component holds"""
    d = {k.rsplit(".", 1)[-1]: np.array(v, dtype=float) for k, v in c._inputs.items()}
    d.update({k.rsplit(".", 1)[-1]: v for k, v in c._discrete_inputs.items()})
    return d


def outs(p, j, kind):
    return {"/" + k: np.array(p.get_val("c%d.%s" % (j, k)), dtype=float).ravel() for k in OUT[kind]}


def totals(p, share, j, kind, has):
    wrt = TWRT[kind]
    J = p.compute_totals(of=["c%d.%s" % (j, k) for k in TOF[kind]], wrt=[name(share, j, k) for k in wrt])
    return {"/d%s/d%s" % (k, w): np.array(J[("c%d.%s" % (j, k), name(share, j, w))], dtype=float) for k in TOF[kind] for w in wrt}


def skip(want):
    """Gradients of coefficients whose value is rounding noise"""
    drop = []
    for k in ("CFhub", "CMhub"):
        if "/" + k in want and (np.abs(want["/" + k]) < 1e-6 * np.abs(want["/" + k]).max()).any():
            drop.append("/d%s/" % k)
    return tuple(drop)


def fresh(state, job):
    """The model (in a fork of a pristine process): outputs and totals of a fresh problem"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import pickle

        try:
            spec, vals, kinds = job
            p = problem([spec], False)
            put(p, False, 0, vals)
            res = {}
            try:
                p.run_model()
                res["out"] = outs(p, 0, spec["kind"])
            except Exception as e:
                res["err"] = type(e).__name__
            if "err" not in res and "tot" in kinds:
                try:
                    res["tot"] = totals(p, False, 0, spec["kind"], None)
                except Exception as e:
                    res["toterr"] = type(e).__name__
            data = pickle.dumps(res)
        except BaseException:  # noqa: B902
            import traceback

            data = pickle.dumps({"bug": traceback.format_exc()})
        os.close(r)
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    os.close(w)
    import pickle

    data = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)


class Comp(Base):
    SHRINK = ("ops",)
    MEASURE = "distinct digests of the sequence of (operation, problem, outcome, function struck)"
    REAL = ["/repo/ccblade/ccblade_component.py"] + Base.REAL + ["OpenMDAO"]
    STUB = ["airfoil errors (CCAirfoil.evaluate and derivatives fail at a chosen call)"]
    ASSUME = ["interruptions strike between source lines of /repo/ccblade", "which inputs a component holds is OpenMDAO's business and is read back from it"]
    QUICK = {"runs": 360, "wall": 60}
    THOROUGH = {"runs": 30000, "wall": 800}
    TIMEOUT = 120
    report = ()
    KINDS = ()

    def gen(self, rng, tier):
        probs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            share = rng.random() < 0.3
            n, re, tab = rng.choice([3, 3, 4]), rng.choice([1, 2]), rng.choice([1, 1, 2])
            comps = []
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(self.KINDS)
                if share and kind == "twist":
                    kind = "loads"
                s = {"kind": kind, "n": n, "re": re, "tab": tab, "inverse": rng.random() < 0.6, "inn": rng.random() < 0.4}
                s["d"] = defaults(rng, kind, n)
                s["has"] = sorted(s["d"])
                comps.append(s)
            if rng.random() < 0.4 and probs:  # the same again, one input changed
                probs.append(copy.deepcopy(probs[0]))
                s = probs[-1]["comps"][0]
                a, b = change(rng, s["kind"], s["d"])
                s["d"][a] = b
            else:
                probs.append({"share": share, "comps": comps})
        ops = []
        cur = [[dict(s["d"]) for s in p["comps"]] for p in probs]
        pf = rng.choice([0.0, 0.2, 0.4])
        for k in range(len(probs)):
            if rng.random() < 0.8:
                ops.append({"op": "run", "k": k})
        for _ in range(rng.randint(5, 14) if tier == "quick" or rng.random() < 0.6 else rng.randint(12, 40)):
            k = rng.randrange(len(probs))
            j = rng.randrange(len(probs[k]["comps"]))
            s = probs[k]["comps"][j]
            x = rng.random()
            o = {"k": k}
            if rng.random() < 0.08:  # a rotor in its axis
                for a in ("yaw", "tilt", "shearExp", "precone")[: rng.choice([3, 3, 4])]:
                    if a in cur[k][j]:
                        cur[k][j][a] = 0.0
                        ops.append(dict(o, op="set", j=j, a=a, b=0.0))
                ops += [dict(o, op="run"), dict(o, op="totals", j=j)]
            if rng.random() < 0.12:  # there and back again
                c = cur[k][j]
                zero = [a for a in ("Omega_load", "pitch_load", "azimuth_load", "yaw", "tilt", "precone", "shearExp", "presweepTip", "precurveTip") if a in c and not isinstance(c[a], (list, bool))]
                a, b = (rng.choice(zero), 0.0) if zero and rng.random() < 0.6 else change(rng, s["kind"], c)
                if "Omega_load" in c and rng.random() < 0.5:
                    a, b = "Omega_load", 0.0
                if a in c and a != "v":
                    both = [dict(o, op="run"), dict(o, op="totals", j=j)]
                    ops += both + [dict(o, op="set", j=j, a=a, b=b)] + both + [dict(o, op="set", j=j, a=a, b=c[a])] + both
            if x < 0.36:
                a, b = change(rng, s["kind"], cur[k][j])
                if a == "v" and rng.random() < 0.4:
                    b = 9  # invalid tables: the run fails
                cur[k][j][a] = b
                if b == 9 and a == "v":
                    cur[k][j][a] = 0
                o.update(op="set", j=j, a=a, b=b)
            elif x < 0.62:
                o.update(op="run")
            elif x < 0.82 and self.WANT_TOTALS:
                o.update(op="totals", j=j)
            elif x < 0.82:
                o.update(op=rng.choice(["run", "totals"]), j=j)
            elif x < 0.88:
                o.update(op="apply")
            elif x < 0.91:
                o.update(op="check")
            elif x < 0.96:
                a, b = change(rng, s["kind"], {q: w for q, w in cur[k][j].items() if q not in DISC and q != "v"})
                o.update(op="perturb", j=j, a=a, b=b)
            else:
                o.update(op="setup")
            if o["op"] in ("run", "totals", "apply") and rng.random() < pf:
                y = rng.random()
                if y < 0.6:
                    o["f"] = ["abort", log_int(rng, 3, 9000), rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])]
                else:
                    o["f"] = ["model", rng.choice(["ValueError", "RuntimeError", "ZeroDivisionError", "FloatingPointError"]), rng.choice("eed"), log_int(rng, 1, 200)]
            ops.append(o)
            if "f" in o and rng.random() < 0.5:
                ops.append({"op": rng.choice(["totals", "run", "apply"]) if self.WANT_TOTALS else "run", "k": k, "j": j})
            if o["op"] == "set" and rng.random() < 0.7:
                ops.append({"op": rng.choice(["run", "run", "totals", "apply"]), "k": k, "j": j})
                if rng.random() < 0.5:
                    ops.append({"op": "totals", "k": k, "j": j})
        for o in ops:  # differencing a twist design is far too long
            p = probs[o["k"]]
            if o["op"] == "check" and (len(p["comps"]) > 1 or p["comps"][0]["re"] * p["comps"][0]["tab"] * p["comps"][0]["n"] > 6):
                o["op"] = "apply"
            if o["op"] in ("totals", "check") and any(s["kind"] == "twist" for s in p["comps"]):
                o["op"] = "run"
        return {"probs": probs, "ops": ops, "sig": util.digest([probs, [o["op"] for o in ops]])}

    WANT_TOTALS = True

    def run(self, plan, want):
        import warnings

        warnings.simplefilter("ignore")
        run = Run()
        model = procs.Remote(fresh)
        ask = {}

        def expect(spec, vals, tot):
            key = util.digest([spec["kind"], spec["n"], spec["re"], spec["tab"], spec["inverse"], spec["inn"], {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in vals.items()}])
            if key not in ask or (tot and not ask[key][0]):
                st, r = model.call((spec, vals, ("tot",) if tot else ()))
                if st != "ok" or "bug" in r:
                    raise RuntimeError("model: %s" % r)
                ask[key] = (tot, r)
            return ask[key][1]

        simaf.ctl.reset()
        patch()
        probs = []
        for pr in plan["probs"]:
            p = problem(pr["comps"], pr["share"])
            cur = [dict(s["d"]) for s in pr["comps"]]
            for j, s in enumerate(pr["comps"]):
                put(p, pr["share"], j, values(s, cur[j]))
            if pr["share"]:
                for j in range(len(cur)):
                    for q in SHARED:
                        if q in cur[j]:
                            cur[j][q] = [c[q] for c in cur if q in c][-1]
            probs.append({"p": p, "cur": cur, "spec": pr, "ran": False, "good": [None] * len(cur), "over": [dict() for _ in cur]})
        compared = dirty = 0
        for n, o in enumerate(plan["ops"]):
            P = probs[o["k"]]
            p, pr = P["p"], P["spec"]
            comps = [getattr(p.model, "c%d" % j) for j in range(len(pr["comps"]))]
            kind = o["op"]
            run.op(kind)
            run.steps += 1
            what = "operation %d (%s on problem %d, %s)" % (n, kind, o["k"], "+".join(s["kind"] for s in pr["comps"]))
            if kind == "set":
                j = o["j"]
                s = pr["comps"][j]
                if o["a"] == "v":
                    v = af_tables(o["b"], s["n"], s["re"], s["tab"])
                    if o["b"] == 9:
                        v["airfoils_aoa"] = np.zeros(NAOA)
                        run.fault("invalid input")
                    put(p, pr["share"], j, v)
                    P["cur"][j]["v"] = o["b"]
                else:
                    put(p, pr["share"], j, {o["a"]: o["b"] if o["a"] in DISC else np.array(o["b"], dtype=float)})
                    for i, d in enumerate(P["cur"]):
                        if i == j or (pr["share"] and o["a"] in SHARED and o["a"] in d):
                            d[o["a"]] = o["b"]
                run.sched += "set%d;" % o["k"]
                run.ev(n, kind, o["k"], o["a"])
                continue
            if kind == "setup":
                p.setup()
                for j, s in enumerate(pr["comps"]):
                    put(p, pr["share"], j, target(s, P["cur"][j]))
                P["ran"] = False
                P["good"] = [None] * len(comps)
                run.ev(n, kind, o["k"])
                run.sched += "setup%d;" % o["k"]
                dirty += 1
                continue
            if kind in ("apply", "perturb", "check") and not P["ran"]:
                continue
            before = [held(c) for c in comps] if P["ran"] else None
            outb = [outs(p, j, s["kind"]) for j, s in enumerate(pr["comps"])] if P["ran"] else None
            tot = None

            def go():
                nonlocal tot
                if kind == "run":
                    p.run_model()
                elif kind == "totals":
                    tot = totals(p, pr["share"], o["j"], pr["comps"][o["j"]]["kind"], None)
                elif kind == "apply":
                    p.model.run_apply_nonlinear()
                    if not any(s["kind"] == "twist" for s in pr["comps"]):  # it would be differenced, far too long
                        p.model.run_linearize()
                elif kind == "check":
                    p.check_partials(out_stream=None, compact_print=True)
                elif kind == "perturb":
                    c = comps[o["j"]]
                    old = {k: np.array(v) for k, v in c._inputs.items()}
                    c._inputs[o["a"]] = o["b"]
                    try:
                        c.run_apply_nonlinear()
                        if pr["comps"][o["j"]]["kind"] != "twist":
                            c.run_linearize()
                    finally:
                        for k, v in old.items():
                            c._inputs[k] = v

            fired, err, exc, where = False, None, None, ""
            f = o.get("f")
            simaf.ctl.reset()
            if f and f[0] == "abort":
                fired, _, err, exc, where = abort.run_with(REPO, f[1], f[2], go)
                if fired:
                    run.fault("interrupt " + f[2])
            else:
                if f:
                    simaf.ctl.raise_at = tuple(f[1:])
                try:
                    go()
                except Exception as e:
                    err = e
                exc = simaf.ctl.fired
                if f and exc is not None:
                    fired = True
                    run.fault("airfoil error in " + {"e": "evaluate", "d": "derivatives"}[f[2]])
            simaf.ctl.reset()
            if not P["ran"] and kind in ("run", "totals"):
                P["ran"] = True
            run.ev(n, kind, o["k"], "error" if err is not None else "ok", where or (f and fired and f[1]) or "")
            run.sched += "%s%d%s%s;" % (kind, o["k"], "!" if err is not None else "", where or "")
            if fired:
                dirty += 1
                if err is None and "errors" in self.report:
                    run.bad("absorbed", "%s: %s in %s was absorbed" % (what, f[2] if f[0] == "abort" else f[1], where or "the airfoil"))
            now = [held(c) for c in comps]
            if "inputs" in self.report and kind == "run":
                for j, s in enumerate(pr["comps"]):
                    if fired or err is not None:
                        break
                    d = same_inputs(now[j], target(s, P["cur"][j]))
                    if d:
                        run.bad("inputs changed", "%s: input of component %d (%s) %s" % (what, j, s["kind"], d))
            if "inputs" in self.report and kind in ("totals", "perturb") and before is not None:
                for j, s in enumerate(pr["comps"]):
                    d = same_inputs(now[j], before[j])
                    if d:
                        run.bad("inputs changed", "%s: input of component %d (%s) %s" % (what, j, s["kind"], d))
            if kind == "run":
                ok = err is None
                P["good"] = [now[j] if ok else None for j in range(len(comps))]
                bad = None
                for j, s in enumerate(pr["comps"]):
                    if fired:
                        break
                    if "outputs" in self.report or (err is not None):
                        w = expect(s, target(s, P["cur"][j]), False)
                        if "err" in w:
                            bad = w["err"]
                            if ok and "errors" in self.report:
                                run.bad("absorbed", "%s succeeds, a fresh problem fails with %s" % (what, w["err"]))
                        elif ok and "outputs" in self.report:
                            d = util.differ(outs(p, j, s["kind"]), w["out"], 1e-8)
                            compared += 1
                            if d:
                                run.bad("outputs", "%s: component %d (%s): %s" % (what, j, s["kind"], d))
                if not ok and not fired and bad is None:
                    run.bad("error", "%s fails (%s), fresh problems do not" % (what, repr(err)[:200]))
                if bad:
                    dirty += 1
            elif kind == "totals":
                j = o["j"]
                s = pr["comps"][j]
                if not fired:
                    w = expect(s, now[j], True)
                    we = w.get("err") or w.get("toterr")
                    if err is not None and not we and not any("err" in (x := expect(t, now[i], True)) or "toterr" in x for i, t in enumerate(pr["comps"])):
                        run.bad("error", "%s fails (%s), a fresh problem does not" % (what, repr(err)[:200]))
                    if err is None and "totals" in self.report:
                        if we:
                            run.bad("totals", "%s: component %d (%s) delivers derivatives, a fresh problem fails with %s" % (what, j, s["kind"], we))
                        else:
                            compared += dirty > 0
                            d = util.differ(tot, w["tot"], 1e-7, skip(w["out"]))
                            if d:
                                run.bad("totals", "%s: derivatives of component %d (%s) are not those of its inputs: %s" % (what, j, s["kind"], d))
            if kind in ("check", "perturb", "apply") and err is not None:
                P["good"] = [None] * len(comps)  # OpenMDAO computes residuals in place
            if kind in ("totals", "check", "perturb", "apply") and "outputs" in self.report and outb is not None:
                for j, s in enumerate(pr["comps"]):
                    if P["good"][j] is None:
                        continue
                    got = outs(p, j, s["kind"])
                    if kind != "totals" and any(np.isinf(v).any() for v in outb[j].values()):  # infinity cannot be put back by adding
                        P["good"][j] = None
                        continue
                    if any(not np.isfinite(got[q]).all() and np.isfinite(outb[j][q]).any() for q in got):  # ... and a NaN stays where it was
                        vals = dict(now[j])
                        if kind == "perturb" and o["j"] == j:
                            vals[o["a"]] = np.array(o["b"], dtype=float)
                        w = expect(s, vals, False)
                        if kind != "check" and ("err" in w or any(not np.isfinite(v).all() for v in w["out"].values())):
                            P["good"][j] = None
                            continue
                    d = util.differ(got, outb[j], 1e-12)  # OpenMDAO computes residuals in place
                    if d:
                        run.bad("outputs", "%s changed the outputs of component %d (%s): %s" % (what, j, s["kind"], d))
            if kind in ("apply", "check"):
                dirty += 1
            if len(run.viol) > 2:
                break
        model.kill()
        run.probe("answers compared", compared)
        run.nontrivial = compared >= 2
        return run


def target(s, d):
    v = values(s, dict(d, v=0) if d.get("v") == 9 else d)
    if d.get("v") == 9:
        v.update(af_tables(9, s["n"], s["re"], s["tab"]), airfoils_aoa=np.zeros(NAOA))
    return v


def same_inputs(got, want):
    for k, v in want.items():
        g = got.get(k)
        if isinstance(v, np.ndarray):
            if g is None or np.ravel(g).shape != v.ravel().shape or not np.array_equal(np.ravel(g), v.ravel(), equal_nan=True):
                return "%s is %s instead of %s" % (k, np.ravel(g)[:6], v.ravel()[:6])
        elif g != v:
            return "%s is %r instead of %r" % (k, g, v)
    return None


_done = []


def patch():
    """The fault seam of the airfoils the components make"""
    if _done:
        return
    from ccblade.ccblade import CCAirfoil

    for nm, which in (("evaluate", "e"), ("derivatives", "d")):
        def wrap(real, which):
            def f(self, *a, **k):
                c = simaf.ctl
                if which == "e":
                    c.n += 1
                    cnt = c.n
                else:
                    c.nd += 1
                    cnt = c.nd
                if c.raise_at is not None and c.raise_at[1] == which and cnt == c.raise_at[2] and c.fired is None:
                    c.fired = simaf.EXC[c.raise_at[0]]("injected")
                    raise c.fired
                return real(self, *a, **k)
            return f
        setattr(CCAirfoil, nm, wrap(getattr(CCAirfoil, nm), which))
    _done.append(1)
