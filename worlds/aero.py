"""AeroDyn files: generated airfoils, what a file of them must hold, ways to load, the command-line tool."""
import contextlib, io, os, runpy, sys
import numpy as np
from sim import gen
from .base import REPO


def spec(rng, n=None, big=False):
    s = gen.airfoil_spec(rng, n or (rng.choice([1, 1, 2, 3, 4]) if rng.random() < 0.93 else rng.choice([9, 10, 13, 24])))
    for p in s:
        if p["n"] == 90:
            continue  # up to exact ends
        p["n"] = rng.choice([12, 31, 60, 150] if big else [12, 20, 31])
        h = [round(rng.uniform(-0.3, 0.3), 6) for _ in range(p["n"])]
        p["j"] = h
        p["Re"] = float(round(p["Re"] * (1 if rng.random() < 0.9 else rng.choice([0.02, 100, 37]))))
        if rng.random() < 0.25:
            gen.odd_polar(rng, p)
        if p["n"] >= 60 and rng.random() < 0.4:
            p["lo"], p["hi"] = rng.choice([(-180, 180), (-100, 120), (-89, 89)])
        if rng.random() < 0.2:  # the whole circle
            p["lo"], p["hi"], p["n"] = -180, 180, 90
            h[:] = [round(rng.uniform(-0.3, 0.3), 6) * (0 < i < 89) for i in range(90)]
    if rng.random() < 0.4:  # a common grid
        for p in s[1:]:
            for k in ("lo", "hi", "n", "j"):
                p[k] = s[0][k]
    return s


def smooth(*specs):
    """No odd entries: the spline of CCAirfoil can be fitted"""
    return not any(p.get("odd") for s in specs if isinstance(s, list) for p in s)


def common(polars):
    """Plain data on the union of the angles, Reynolds numbers ascending (independent of the code under test)."""
    ps = sorted(polars, key=lambda p: float(p["Re"]))
    al = np.unique(np.concatenate([np.asarray(p["alpha"], float) for p in ps]))
    return [{"Re": float(p["Re"]), "alpha": al, **{k: np.interp(al, p["alpha"], p[k]) for k in ("cl", "cd", "cm")}} for p in ps]


def printed(polars):
    """What the six decimals of the format keep."""
    r = lambda a: np.array([float("%f" % v) for v in a])
    return [{"Re": float("%f" % (p["Re"] / 1e6)) * 1e6, **{k: r(p[k]) for k in ("alpha", "cl", "cd", "cm")}} for p in common(polars)]


def expected(s):
    return printed([dict(zip(("alpha", "cl", "cd", "cm"), gen.polar_arrays(p)), Re=p["Re"]) for p in s])


def data(af):
    return [{k: (float(getattr(p, k)) if k == "Re" else np.array(getattr(p, k), dtype=float)) for k in ("Re", "alpha", "cl", "cd", "cm")} for p in af.polars]


def close(got, want, tol=1.2e-6):
    """None, or where two lists of tables differ by more than the format's last decimal."""
    if len(got) != len(want):
        return "%d tables instead of %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if abs(g["Re"] - w["Re"]) > 1.2:
            return "table %d: Re %r instead of %r" % (i, g["Re"], w["Re"])
        for k in ("alpha", "cl", "cd", "cm"):
            if g[k].shape != w[k].shape:
                return "table %d: %d rows instead of %d" % (i, len(g[k]), len(w[k]))
            ok = np.isfinite(w[k])  # (extrapolating odd data can give NaN)
            if not np.array_equal(g[k][~ok], w[k][~ok], equal_nan=True):
                return "table %d: %s has %r instead of %r" % (i, k, g[k][~ok].tolist(), w[k][~ok].tolist())
            if not np.isfinite(g[k][ok]).all():
                return "table %d: %s has %r" % (i, k, float(g[k][ok][~np.isfinite(g[k][ok])][0]))
            d = np.where(ok, np.abs(np.where(ok, g[k], 0.0) - np.where(ok, w[k], 0.0)), 0.0)
            if len(d) and d.max() > tol:
                j = int(d.argmax())
                return "table %d row %d: %s is %r instead of %r" % (i, j, k, float(g[k][j]), float(w[k][j]))
    return None


def grid_of(tabs):
    """CCAirfoil made from tables, for comparison with CCAirfoil.initFromAerodynFile"""
    from ccblade.ccblade import CCAirfoil

    al = tabs[0]["alpha"]
    st = lambda k: np.array([t[k] for t in tabs]).T
    return CCAirfoil(al, [t["Re"] for t in tabs], st("cl"), st("cd"), cm=st("cm"))


PROBE = [(-0.2, 1e6), (0.0, 3e6), (0.05, 8e6), (0.12, 2e7), (0.3, 5e6)]


def cc_probe(cc):
    r = [cc.evaluate(a, Re, return_cm=True) for a, Re in PROBE]
    return np.array([[float(np.asarray(v).ravel()[0]) for v in t] for t in r])


def load(path, how):
    """-> tables (how 'af') or the probe of a CCAirfoil (how 'cc')"""
    if how == "af":
        from ccblade.airfoilprep import Airfoil

        return data(Airfoil.initFromAerodynFile(path))
    from ccblade.ccblade import CCAirfoil

    return cc_probe(CCAirfoil.initFromAerodynFile(path))


def fits(tabs):
    """A spline can be fitted (for close Reynolds numbers and rough data the fit may not converge)"""
    try:
        return (np.diff([t["Re"] for t in tabs]) > 0.0).all() and grid_of(tabs) is not None
    except Exception:
        return False


def same_load(got, how, tabs):
    """None, or how a loaded thing differs from the expected tables"""
    if how == "af":
        return close(got, tabs)
    w = cc_probe(grid_of(tabs))
    if got.shape != w.shape or not np.isfinite(got).all() or np.abs(got - w).max() > 2e-5:
        return "evaluations differ: %s instead of %s" % (got.tolist(), w.tolist())
    return None


def cli(*args):
    """python airfoilprep.py ARGS, in this process"""
    path = os.path.join(REPO, "ccblade", "airfoilprep.py")
    old = sys.argv
    sys.argv = [path] + list(args)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            raise RuntimeError("exit status %r" % (e.code,)) from e
    finally:
        sys.argv = old


def cli_op(rng, names):
    k = rng.choice(["stall3D", "extrap", "blend"])
    o = {"k": k, "src": rng.choice(names), "common": rng.random() < 0.3, "out": rng.choice([None, "res.dat", "sub/res.dat", "over"])}
    if k == "stall3D":
        o["a"] = [str(round(rng.uniform(0.2, 0.9), 2)), str(round(rng.uniform(0.05, 0.3), 3)), str(round(rng.uniform(3, 10), 1))]
    elif k == "extrap":
        o["a"] = [str(round(rng.uniform(1.1, 1.7), 2))]
    else:
        o["a"] = [rng.choice(names), rng.choice(["0", "1", "0.5", "0.25"])]
    if o["out"] == "over":
        o["out"] = o["src"]
    return o


def cli_args(o):
    return [o["src"], "--" + o["k"], *o["a"]] + (["--common"] if o["common"] else []) + (["--out", o["out"]] if o["out"] else [])


def cli_out(o):
    if o["out"]:
        return o["out"]
    n, e = os.path.splitext(o["src"])
    if o["k"] == "stall3D":
        return n + "_3D" + e
    if o["k"] == "extrap":
        return n + "_extrap" + e
    n2, e2 = os.path.splitext(os.path.basename(o["a"][0]))
    return n + "+" + n2 + "_blend" + o["a"][1] + e2


def cli_lib(o, tabs, other):
    """The library operation on plain tables -> tables as a file of it must hold them"""
    from ccblade.airfoilprep import Airfoil, Polar

    mk = lambda t: Airfoil([Polar(p["Re"], p["alpha"], p["cl"], p["cd"], p["cm"]) for p in t])
    a = mk(tabs)
    if o["k"] == "stall3D":
        r = a.correction3D(*[float(x) for x in o["a"]])
    elif o["k"] == "extrap":
        r = a.extrapolate(float(o["a"][0]))
    else:
        r = a.blend(mk(other), float(o["a"][1]))
    return printed(data(r))
