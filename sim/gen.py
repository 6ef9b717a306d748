"""Generated rotors, airfoils, polars and operations: JSON specifications and their builders."""
import math
import numpy as np

# ---------------------------------------------------------------- airfoil tables


def af_spec(rng, kind=None):
    k = kind or rng.choice(["multi", "single", "single", "multi2", "multi3", "cyl"])
    s = {"k": k, "slope": round(rng.uniform(0.09, 0.12), 4), "a0": round(rng.uniform(-5, 0), 2), "cd0": round(rng.uniform(0.006, 0.02), 4),
         "clmax": round(rng.uniform(1.0, 1.6), 3), "cm0": round(rng.uniform(-0.14, -0.02), 4), "cm": rng.random() < 0.6, "n": rng.choice([25, 37, 49])}
    if k == "cyl":
        s["cd0"] = round(rng.uniform(0.3, 0.6), 3)
    s["name"] = rng.choice(["", "", "NACA 64", "DU"])
    s["sd"] = rng.choice([0.0, 0.0, 2.5, -3.0, 5.0])  # shift of the stall per decade of the Reynolds number
    s["re"] = {"single": [1e6], "cyl": [1e6], "multi": [1e6, 5e6, 1e7, 2e7], "multi2": [2e6, 9e6], "multi3": [7e5, 4e6, 1.2e7]}[k]
    return s


def tables(s):
    """alpha (deg), Re, cl, cd, cm"""
    n = s["n"]
    inner = np.linspace(-24, 24, n)
    outer = np.array([-180.0, -150, -120, -90, -65, -40])
    alpha = np.concatenate((outer, inner, -outer[::-1]))
    Re = np.array(s["re"])
    cl, cd, cm = (np.zeros((len(alpha), len(Re))) for _ in range(3))
    for j, re in enumerate(Re):
        f = 1.0 + 0.05 * math.log10(re / 1e6)
        if s["k"] == "cyl":
            cd[:, j] = s["cd0"]
            continue
        a = np.radians(alpha)
        lin = s["slope"] * f * (alpha - s["a0"])
        att = s["clmax"] * f * np.tanh(lin / (s["clmax"] * f))
        sep = 1.1 * np.sin(2 * a)
        w = 1 / (1 + np.exp((np.abs(alpha) - 19.0 - s.get("sd", 0.0) * math.log10(re / 1e6)) / 2.5))
        cl[:, j] = w * att + (1 - w) * sep
        cd[:, j] = w * (s["cd0"] / f + 0.00012 * alpha ** 2) + (1 - w) * (0.05 + 1.3 * np.sin(a) ** 2)
        cm[:, j] = w * (s["cm0"] - 0.0005 * alpha) + (1 - w) * (-0.35 * np.sin(a))
    for c, i, j, v in s.get("odd", []):
        (cl, cd, cm)[c][i % len(alpha), j % len(Re)] = v
    return alpha, Re, cl, cd, cm


def fits(s):
    """Can the spline of CCAirfoil be fitted (odd entries)?"""
    from scipy.interpolate import RectBivariateSpline

    alpha, Re, cl, cd, cm = tables(s)
    if len(Re) == 1:
        Re, cl, cd, cm = np.array([1e1, 1e15]), np.c_[cl, cl], np.c_[cd, cd], np.c_[cm, cm]
    try:
        for z, e in ((cl, 0.1), (cd, 0.001), (cm, 0.0001)):
            RectBivariateSpline(alpha, Re, z, kx=3, ky=min(len(Re) - 1, 3), s=e)
        return True
    except ValueError:
        return False


def make_af(s, arrays=None, cls=None):
    from ccblade.ccblade import CCAirfoil

    alpha, Re, cl, cd, cm = arrays or tables(s)
    cls = cls or CCAirfoil
    kw = {"AFName": s["name"]} if s.get("name") else {}
    return cls(alpha, Re, cl, cd, cm, **kw) if s["cm"] else cls(alpha, Re, cl, cd, **kw)


# ---------------------------------------------------------------- rotors


def rotor_spec(rng, naf=3, n=None, small=False, deriv=None):
    n = n or rng.choice([3, 4, 4, 5, 6])
    Rhub = round(rng.uniform(1.0, 2.0), 3)
    Rtip = round(rng.uniform(35, 65), 3)
    ends = rng.choice(["inside", "inside", "both", "tip"])
    lo = Rhub if ends == "both" else Rhub + rng.uniform(1, 3)
    hi = Rtip if ends in ("both", "tip") else Rtip - rng.uniform(0.5, 2)
    r = [lo + (hi - lo) * (i / (n - 1)) ** rng.choice([0.9, 1.0]) for i in range(n)]
    r[0], r[-1] = lo, hi
    s = dict(
        r=r,
        chord=[round(4.2 - 3.0 * i / (n - 1) + rng.uniform(-0.2, 0.2), 3) for i in range(n)],
        theta=[round(14.0 * (1 - i / (n - 1)) ** 2 + rng.uniform(-1, 1), 3) for i in range(n)],
        af=[rng.randrange(naf) for _ in range(n)],
        Rhub=Rhub, Rtip=Rtip, B=rng.choice([2, 3, 3, 3, 1]), rho=rng.choice([None, None, 1.1, 1.029]), mu=rng.choice([None, None, 1.7e-5]),
        precone=rng.choice([0.0, 2.5, -2.0]), tilt=rng.choice([0.0, 5.0, -5.0]), yaw=rng.choice([0.0, 0.0, 8.0]),
        shear=rng.choice([0.0, 0.2, 0.14]), hubHt=round(rng.uniform(80, 120), 2), nSector=rng.choice([4, 4, 5, 6, 8] if not small else [4, 4, 4, 4, 5, 7]),
        precurve=None, presweep=None, precurveTip=0.0, presweepTip=0.0,
        tiploss=rng.random() < 0.9, hubloss=rng.random() < 0.8, wakerotation=rng.random() < 0.85, usecd=rng.random() < 0.85,
        iterRe=rng.choice([1, 1, 1, 2]), deriv=(rng.random() < 0.4 if deriv is None else deriv),
    )
    if rng.random() < 0.3:
        s["tilt"] = s["yaw"] = s["shear"] = 0.0  # one sector
    if rng.random() < 0.4:
        s["precurve"] = [round(-2.5 * (i / (n - 1)) ** 2, 4) for i in range(n)]
        s["precurveTip"] = rng.choice([s["precurve"][-1], -2.7])
    if rng.random() < 0.3:
        s["presweep"] = [round(1.5 * (i / (n - 1)) ** 2, 4) for i in range(n)]
        s["presweepTip"] = rng.choice([s["presweep"][-1], 1.6])
    if rng.random() < 0.15:  # legal, but seldom seen
        k = rng.choice(["nSector", "nSector", "iterRe", "B", "precone", "tilt", "shear", "hubHt", "yaw"])
        s[k] = {"nSector": rng.choice([1, 2, 3, 9, 12, 16]), "iterRe": rng.choice([3, 3, 5]), "B": rng.choice([4, 6]), "precone": rng.choice([-8.0, 12.0]), "tilt": rng.choice([-15.0, 20.0]),
                "shear": rng.choice([-0.1, 0.5, 1.0]), "hubHt": round(s["Rtip"] * rng.choice([1.05, 4.0]), 2), "yaw": rng.choice([-35.0, 40.0, 90.0])}[k]
    if s["iterRe"] != 1 and rng.random() < 0.8:
        s["deriv"] = False
    return s


ARRAYS = ("r", "chord", "theta", "precurve", "presweep")


def rotor_arrays(s):
    return {k: (None if s[k] is None else np.array(s[k], dtype=float)) for k in ARRAYS}


def make_rotor(s, afs, arrays=None, cls=None):
    """afs: list of airfoil objects the spec's indices refer to"""
    from ccblade.ccblade import CCBlade

    a = arrays or rotor_arrays(s)
    cls = cls or CCBlade
    af = a.get("af") or [afs[i % len(afs)] for i in s["af"]]
    air = {k: s[k] for k in ("rho", "mu") if s.get(k) is not None}
    return cls(a["r"], a["chord"], a["theta"], af, s["Rhub"], s["Rtip"], s["B"], **air, precone=s["precone"], tilt=s["tilt"], yaw=s["yaw"], shearExp=s["shear"],
               hubHt=s["hubHt"], nSector=s["nSector"], precurve=a["precurve"], precurveTip=s["precurveTip"], presweep=a["presweep"], presweepTip=s["presweepTip"],
               tiploss=s["tiploss"], hubloss=s["hubloss"], wakerotation=s["wakerotation"], usecd=s["usecd"], iterRe=s["iterRe"], derivatives=s["deriv"])


# ---------------------------------------------------------------- operations on a rotor


def cond(rng, s, parked=None):
    U = round(rng.uniform(4, 22), 3)
    if parked is None and rng.random() < 0.06:  # the edges: idle, no wind, deep pitch, wind from behind, tiny
        return rng.choice([[0.0, 0.0, 0.0], [0.0, 8.0, 1.0], [U, 9.0, -60.0], [U, 9.0, 45.0], [-U, 9.0, 2.0], [U, -9.0, 1.0], [U, 1e-3, 0.0], [0.01, 9.0, 0.0], [U, 60.0, 0.0], [0.0, 0.0, 90.0], [U, 0.0, -90.0], [U, 9.0, 180.0]])
    parked = rng.random() < 0.12 if parked is None else parked
    tsr = rng.uniform(3, 11)
    Om = 0.0 if parked else round(tsr * U / s["Rtip"] * 30 / math.pi, 4)
    p = round(rng.choice([rng.uniform(-3, 5), rng.uniform(5, 25), 90.0 if parked else 0.0]), 3)
    if rng.random() < 0.08:  # whole numbers, and of that type
        return [int(round(U)), int(round(Om)), int(round(p))]
    return [U, Om, p]


def rotor_op(rng, s, npts=2, inverse=True):
    x = rng.random()
    if x < 0.45:
        k = rng.randint(1, npts)
        c = [cond(rng, s) for _ in range(k)]
        coef = rng.random() < 0.45
        if coef and s["deriv"]:  # coefficient gradients divide by the rotor speed and by the totals
            c = [cond(rng, s, parked=False) for _ in range(k)]
        o = {"op": "eval", "U": [v[0] for v in c], "Om": [v[1] for v in c], "p": [v[2] for v in c], "coef": coef}
        if rng.random() < 0.07 and not (coef and s["deriv"]):  # all parked
            o["Om"] = [0.0] * k
        if rng.random() < 0.2:
            o["form"] = rng.choice(["tuple", "array", "scalar", "column"])
        return o
    if x < 0.85 or not inverse:
        c = cond(rng, s)
        o = {"op": "loads", "U": c[0], "Om": c[1], "p": c[2], "az": rng.choice([0.0, 90.0, round(rng.uniform(0, 360), 2), round(rng.uniform(0, 360), 2), 360.0, -30.0, 180, 400.5])}
        if rng.random() < 0.15:
            n = len(s["r"])
            o["U"] = [round(c[0] * (1 + 0.02 * i), 4) for i in range(n)]
        return o
    c = cond(rng, s, parked=False)
    n = len(s["r"])
    return {"op": "inverse", "U": c[0], "Om": c[1], "p": round(rng.uniform(-2, 3), 2), "al": [round(rng.uniform(2, 8), 3) for _ in range(n)],
            "how": rng.choice(["eval", "loads"])}


def vary(rng, o, s):
    """The same question with one detail changed (or none)."""
    o = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items() if k not in ("abort", "fail", "bad")}
    if rng.random() < 0.12:
        return o
    tiny = rng.random() < 0.25
    if o["op"] == "eval":
        f = rng.choice(["U", "Om", "p", "p", "coef", "order", "drop", "twice", "park"])
        j = rng.randrange(len(o["U"]))
        if f in ("U", "Om", "p"):
            o[f][j] = round(o[f][j] * (1.0004 if tiny else rng.choice([1.07, 0.8])) + ((0.001 if tiny else rng.choice([0.9, -0.9, 30])) if f == "p" else 0.0), 5)
            if f == "p" and not tiny and rng.random() < 0.3:
                o["p"][j] = -o["p"][j]
        elif f == "coef":
            o["coef"] = not o["coef"]
        elif f == "order":
            for k in ("U", "Om", "p"):
                o[k].reverse()
        elif f == "drop" and len(o["U"]) > 1:
            for k in ("U", "Om", "p"):
                del o[k][j]
        elif f == "twice":
            for k in ("U", "Om", "p"):
                o[k].append(o[k][j])
        elif f == "park":
            o["Om"][j] = 0.0
        if o["coef"] and s["deriv"] and 0.0 in o["Om"]:
            o["coef"] = False
        return o
    if o["op"] == "loads":
        f = rng.choice(["U", "U", "Om", "p", "p", "az", "az", "profile"])
        if f == "az":
            o["az"] = round(rng.choice([o["az"] + 0.9, 360 - o["az"], o["az"] + 120, o["az"] + 0.002]), 4)
        elif f == "profile":  # another wind of the same mean
            n = len(s["r"])
            if isinstance(o["U"], list):
                o["U"] = rng.choice([o["U"][::-1], [round(sum(o["U"]) / n, 4)] * n, o["U"][1:] + o["U"][:1]])
            else:
                o["U"] = [round(o["U"] * (1 + 0.06 * (i - (n - 1) / 2)), 5) for i in range(n)]
        elif f == "p":
            o["p"] = round(rng.choice([o["p"] + (0.001 if tiny else 0.9), -o["p"], o["p"] + 30]), 4)
        elif f == "Om":
            o["Om"] = round(o["Om"] * (1.0004 if tiny else rng.choice([1.07, 0.8, 0.0])), 5)
        else:
            m = 1.0004 if tiny else rng.choice([1.07, 0.8])
            o["U"] = [round(v * m, 5) for v in o["U"]] if isinstance(o["U"], list) else round(o["U"] * m, 5)
        return o
    f = rng.choice(["al", "al", "one", "order", "U", "Om", "p"])
    if f == "al":
        o["al"] = [round(v + 0.5, 4) for v in o["al"]]
    elif f == "one":
        o["al"][rng.randrange(len(o["al"]))] += 1.0
    elif f == "order":
        o["al"].reverse()
    else:
        o[f] = round(o[f] * 1.05 + (0.5 if f == "p" else 0.0), 4)
    return o


def set_inverse(rotor, o):
    """what CCBladeTwist does before its inverse solve"""
    rotor.inverse_analysis = True
    rotor.alpha = np.radians(np.array(o["al"]))
    cl, cd = np.zeros(len(rotor.r)), np.zeros(len(rotor.r))
    for i in range(len(rotor.r)):
        cl[i], cd[i] = rotor.af[i].evaluate(rotor.alpha[i], 3e6)
    rotor.cl, rotor.cd = cl, cd


def do_op(rotor, o, arrays=None):
    """Performs an operation; returns the raw result."""
    a = arrays or {}
    if "bad" in o:
        o = dict(o)
        f, v = o.pop("bad")
        o[f] = v
    if o["op"] == "eval":
        v = [a.get(k, o[k]) for k in ("U", "Om", "p")]
        if o.get("form") and "U" not in a and not any(isinstance(x, str) or x is None for x in v):
            f = o["form"]
            v = [tuple(x) if f == "tuple" else np.array(x) if f == "array" else np.array(x)[:, None] if f == "column" else x[0] if len(x) == 1 else x for x in v]
        return rotor.evaluate(v[0], v[1], v[2], coefficients=o["coef"])
    if o["op"] == "loads":
        U = a.get("U", np.array(o["U"]) if isinstance(o["U"], list) else o["U"])
        return rotor.distributedAeroLoads(U, a.get("Om", o["Om"]), a.get("p", o["p"]), o["az"])
    if o["op"] == "inverse":
        try:
            set_inverse(rotor, o)
            if o["how"] == "eval":
                rotor.evaluate([o["U"]], [o["Om"]], [o["p"]])
            else:
                rotor.distributedAeroLoads(o["U"], o["Om"], o["p"], 0.0)
        finally:
            rotor.inverse_analysis = False
        return {"theta": rotor.theta}
    raise ValueError(o["op"])


def af_query(af, o):
    if o["q"] == "evaluate":
        al = np.array(o["al"]) if isinstance(o["al"], list) else o["al"]
        return af.evaluate(al, o["Re"], return_cm=o.get("cm", False))
    if o["q"] == "derivatives":
        return af.derivatives(o["al"], o["Re"])
    if o["q"] == "max_eff":
        return af.max_eff(o["Re"])
    if o["q"] == "awayfromstall":
        return af.awayfromstall(o["Re"], o.get("m", 3.0))
    if o["q"] == "unsteady":
        al, Re, cl, cd, cm = tables(o["spec"])
        af.eval_unsteady(al, cl[:, 0], cd[:, 0], cm[:, 0])
        return {k: v for k, v in af.unsteady.items() if not isinstance(v, str)}
    raise ValueError(o["q"])


def af_op(rng, naf, specs):
    i = rng.randrange(naf)
    o = {"op": "af", "i": i, "q": rng.choice(["evaluate", "derivatives", "max_eff", "awayfromstall", "unsteady", "evaluate"]),
         "al": round(rng.uniform(-0.6, 0.6), 4), "Re": rng.choice([1e6, 3e6, 8e6, 1.1e7, round(10 ** rng.uniform(5.5, 7.4))]), "cm": rng.random() < 0.5, "m": rng.choice([3.0, 3.0, 5.0, 0.0]), "spec": specs[i]}
    if o["q"] == "evaluate" and rng.random() < 0.15:
        o["al"] = [o["al"], 0.1, -0.2]
    return o


def pick(o, keys):
    return {k: o[k] for k in keys if k in o}


def vary_af(rng, o, naf, specs):
    o = {k: v for k, v in o.items() if k not in ("abort", "fail")}
    f = rng.choice(["cm", "cm", "Re", "al", "m", "i", "q", "same"])
    if f == "cm":
        o["cm"] = not o["cm"]
    elif f == "Re":
        o["Re"] = rng.choice([1e6, 3e6, 8e6, o["Re"] * 1.001, o["Re"] * 3.0, o["Re"] / 4])
    elif f == "al":
        o["al"] = [-v for v in o["al"]] if isinstance(o["al"], list) else rng.choice([-o["al"], o["al"] + 1e-4, o["al"] + 0.01])
    elif f == "m":
        o["m"] += 1.0
    elif f == "i":
        o["i"] = rng.randrange(naf)
        o["spec"] = specs[o["i"]]
    elif f == "q":
        o["q"] = rng.choice(["evaluate", "derivatives", "max_eff", "awayfromstall"])
        if isinstance(o["al"], list):
            o["al"] = o["al"][0]
    return o


# ---------------------------------------------------------------- polars and multi-Re airfoils


def polar_spec(rng, Re=None, n=None):
    n = n or rng.choice([12, 20, 31])
    lo, hi = rng.choice([(-10, 15), (-12, 18), (-16, 16), (-8, 20), (-5, 12)])
    jitter = [round(rng.uniform(-0.3, 0.3), 6) for _ in range(n)]
    if rng.random() < 0.1:  # ends exactly there
        lo, hi = rng.choice([(-90, 90), (-180, 180), (-180, 180), (-30, 90), (-90, 45), (-10, 180), (0, 20)])
        n = 90
        jitter = [round(rng.uniform(-0.3, 0.3), 6) * (0 < i < n - 1) for i in range(n)]
    return dict(Re=Re or round(rng.uniform(0.5, 20), rng.choice([1, 3, 6])) * 1e6, lo=lo, hi=hi, n=n, j=jitter, slope=round(rng.uniform(0.08, 0.12), 5), a0=round(rng.uniform(-4, 0), 3),
                cd0=round(rng.uniform(0.006, 0.02), 6), cm0=rng.choice([0.0, round(rng.uniform(-0.15, -0.02), 6)]), clmax=round(rng.uniform(1.0, 1.7), 4))


def odd_polar(rng, s):
    """Unusual but legal entries."""
    s["odd"] = [[rng.randrange(3), rng.randrange(200), rng.choice([-0.01, 0.0, -0.0, 1.25, -1.25, 1.0, 2.5, -3.25, 12.5, 1e-7, 105.25, -99.5, 0.0000005])] for _ in range(rng.choice([1, 2, 5]))]
    return s


def polar_arrays(s):
    h = (s["hi"] - s["lo"]) / (s["n"] - 1)
    a = s["lo"] + h * np.arange(s["n"]) + np.array(s["j"]) * h
    a = np.round(a, 6)
    cl = s["clmax"] * np.tanh(s["slope"] * (a - s["a0"]) / s["clmax"])
    cd = s["cd0"] + 0.0001 * (a - 2.0) ** 2
    cm = s["cm0"] * (1 + 0.02 * a) if s["cm0"] else np.zeros_like(a)
    for c, i, v in s.get("odd", []):
        (cl, cd, cm)[c][i % len(a)] = v
    return a, np.round(cl, s.get("rd", 12)), np.round(cd, s.get("rd", 12)), np.round(cm, s.get("rd", 12))


def make_polar(s, arrays=None):
    from ccblade.airfoilprep import Polar

    return Polar(s["Re"], *(arrays or polar_arrays(s)))


def airfoil_spec(rng, n=None):
    n = n or rng.choice([1, 1, 2, 3])
    res = []
    while len(res) < n:
        p = polar_spec(rng)
        if all(abs(p["Re"] - q["Re"]) > 1e4 for q in res):
            res.append(p)
    return res


def make_airfoil(spec):
    from ccblade.airfoilprep import Airfoil

    return Airfoil([make_polar(p) for p in spec])


def points(rng, total, n=None, k=2, tight=None):
    """A schedule: preemption points among about `total` events and k threads."""
    tight = rng.random() < 0.35 if tight is None else tight
    if tight:
        q = rng.choice([2, 5, 20, 60])
        start = rng.randrange(max(1, total))
        pts, e = [], start
        for _ in range(rng.choice([20, 100, 300])):
            e += 1 + int(rng.expovariate(1.0 / q))
            pts.append([e, rng.randrange(k)])
        return pts
    n = n or rng.choice([1, 2, 3, 5, 8, 16, 40])
    return sorted([rng.randrange(1, max(2, total)), rng.randrange(k)] for _ in range(n))


def fpoints(rng, k):
    """Preemption points as [fraction of the run, offset, thread]; resolved when its length is known.
    [-1, n, thread]: before the n-th line of code that no thread has executed yet."""
    x = rng.random()
    if x < 0.25:
        top = rng.choice([40, 120, 300])
        if rng.random() < 0.6:
            a = rng.randint(1, top)
            return [[-1, n, rng.randrange(k)] for n in range(a, a + rng.choice([10, 30, 100]))]
        return [[-1, rng.randint(1, top), rng.randrange(k)] for _ in range(rng.choice([1, 2, 4, 8, 16]))]
    if x < 0.55:
        q, f, off, pts = rng.choice([2, 5, 20, 60]), round(rng.random() * 0.95, 5), 0, []
        for _ in range(rng.choice([20, 100, 400])):
            off += 1 + int(rng.expovariate(1.0 / q))
            pts.append([f, off, rng.randrange(k)])
        return pts
    return [[round(rng.random(), 5), 0, rng.randrange(k)] for _ in range(rng.choice([1, 2, 3, 5, 8, 16, 40]))]


def resolve(pts, total):
    return [(-off if f < 0 else max(1, int(f * total) + off), t) for f, off, t in pts]


# ---------------------------------------------------------------- preprocessing operations


def polar_op(rng, npol, naf, spec_re=(1e6, 5e6)):
    """An operation on polars 0..npol-1 or airfoils 0..naf-1"""
    on = "p" if naf == 0 or (npol and rng.random() < 0.5) else "a"
    n = npol if on == "p" else naf
    i, j = rng.randrange(n), rng.randrange(n)
    k = rng.choice(["blend", "blend", "corr", "corr", "ext", "ext", "unst"] if on == "p" else ["blend", "corr", "corr", "ext", "get", "get", "common", "common", "grid", "grid", "unst"])
    o = {"on": on, "i": i, "k": k}
    fail = rng.random() < 0.12
    if k == "blend":
        o.update(j=j, w=rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]))
        if fail:
            o["w"] = "x"
    elif k == "corr":
        o.update(a=[round(rng.uniform(0.1, 0.95), 3), round(rng.uniform(0.03, 0.4), 3), round(rng.uniform(2, 11), 2)] + rng.choice([[], [], [25], [30, -4, 4], [20, -3, 6]]))
        if fail:
            o["a"] = o["a"][:3] + [30, 500, 600]
    elif k == "ext":
        o.update(cdmax=round(rng.uniform(1.0, 1.8), 3), AR=rng.choice([None, None, 12.0, 17.5]), cdmin=rng.choice([0.001, 0.005, 0.02]), nalpha=rng.choice([15, 15, 8, 20]))
        if fail:
            o["cdmax"] = "x"
    elif k == "unst":
        o.update(a=rng.choice([[], [-5, 5], [-3, 6]]))
        if fail:
            o["a"] = [300, 400]
    elif k == "get":
        o.update(Re=rng.choice([1e3, 1e12, round(rng.uniform(0.5, 20) * 1e6), round(rng.uniform(0.5, 20) * 1e6), ["exact", rng.randrange(3)], ["exact", 1]]))
    elif k == "common":
        o.update(al=rng.choice([None, None, [-8.0, -3.0, 0.0, 2.5, 7.0, 11.0], [0.0, 1.0], [4.0, -2.0, 9.5, 1.0], [7.0, 3.0, 0.0, -4.0], ["of", rng.randrange(3), rng.choice([1, 1, -1])]]))
    return o


def do_polar_op(pols, afs, o, alpha=None):
    """Returns the raw result"""
    s = pols if o["on"] == "p" else afs
    x, k = s[o["i"]], o["k"]
    if k == "blend":
        return x.blend(s[o["j"]], o["w"])
    if k == "corr":
        return x.correction3D(*o["a"])
    if k == "ext":
        return x.extrapolate(o["cdmax"], o["AR"], o["cdmin"], o["nalpha"]) if o["on"] == "p" else x.extrapolate(o["cdmax"], o["AR"], o["cdmin"])
    if k == "unst":
        return x.unsteadyparam(*o["a"]) if o["on"] == "p" else x.polars[0].unsteadyparam(*o["a"])
    if k == "get":
        return x.getPolar(x.polars[o["Re"][1] % len(x.polars)].Re if isinstance(o["Re"], list) else o["Re"])
    if k == "common":
        if alpha is None and o["al"] and o["al"][0] == "of":  # the angles of one of its polars, as the polar holds them
            return x.interpToCommonAlpha(x.polars[o["al"][1] % len(x.polars)].alpha[:: o["al"][2]])
        return x.interpToCommonAlpha(o["al"] if alpha is None else alpha)
    if k == "grid":
        return x.createDataGrid()
    raise ValueError(k)


def polar_data(x):
    """Polars and airfoils as plain nested data; anything else as it is."""
    if hasattr(x, "polars"):
        return [polar_data(p) for p in x.polars]
    if hasattr(x, "cl") and hasattr(x, "Re") and hasattr(x, "alpha"):
        return {k: getattr(x, k) for k in ("Re", "alpha", "cl", "cd", "cm")}
    return x
