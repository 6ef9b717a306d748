"""bin/check ID [--replay FILE] ...   (see --help)"""
import argparse, importlib, os, shutil, sys, tempfile, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--min-s", type=float, default=40.0, help="seconds for minimisation")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--one", type=int, help="execute one run and show its log")
    a = ap.parse_args()
    if os.environ.get("SIM_BOOT") != "1":
        from sim import build

        b = build.build()
        e = dict(os.environ)
        e.update(SIM_BOOT="1", SIM_BEM=b["bem"], SIM_SHIM=b["shim"], SIM_XFOIL=b["xfoil"], LD_PRELOAD=b["shim"], PYTHONDONTWRITEBYTECODE="1",
                 OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI="0", LANG="C.UTF-8", LC_ALL="C.UTF-8")
        e.setdefault("SIM_HASHSEED", "0")
        e["PYTHONHASHSEED"] = e["SIM_HASHSEED"]
        for k in ("PYTHONPATH", "PYTHONWARNINGS", "SIM_SOCK", "SIM_PREFIX", "PYTHONSTARTUP", "PYTHONOPTIMIZE"):
            e.pop(k, None)
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (64 << 20) else None
        e["SIM_SCRATCH"] = tempfile.mkdtemp(prefix="sim-%s-" % a.id, dir=base)
        e["OPENMDAO_WORKDIR"] = e["SIM_SCRATCH"]
        sys.stdout.flush()
        import subprocess

        try:
            r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=e)
            return r.returncode if r.returncode in (0, 1) else 2
        finally:
            shutil.rmtree(e["SIM_SCRATCH"], ignore_errors=True)
    scratch = os.environ["SIM_SCRATCH"]
    os.chdir(scratch)
    from sim import boot, core

    boot.load(a.id)
    world = importlib.import_module("worlds." + a.id.lower()).World()
    if a.replay:
        return core.main_replay(world, os.path.join(HERE, a.replay) if not os.path.exists(a.replay) else a.replay, scratch)
    if a.one is not None:
        h = core.Harness(world, a.tier, a.seed, scratch)
        p = h.plan(a.one)
        import json

        print(json.dumps(p)[:6000])
        r = h.execute(p)
        for line in r.log:
            print("  " + line)
        print(r.viol, r.faults, r.ops, r.probes)
        return 1 if r.viol else 0
    return core.main_check(world, a, scratch)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
