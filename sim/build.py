"""Builds what a check needs from /repo's working tree, outside /repo:

  _bem*.so   the Fortran kernels, from /repo/ccblade/src/bem.f90 (f2py, as the package does)
  shim.so    the libc interposer that is the simulator's disk and process seam (native/shim.c)
  xfoil      the simulated XFOIL (native/xfoil.c)

Everything goes to .build/<hash of the inputs>/, which git ignores; nothing there is needed
afterwards, a check that does not find it builds it again.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = sys.executable


def _sha(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        with open(p, "rb") as f:
            h.update(p.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:20]


def build_root():
    for d in (os.path.join(HERE, ".build"), os.path.join(tempfile.gettempdir(), "verif-build-%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise RuntimeError("no place to build in")


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def _env_clean():
    os.environ.pop("LD_PRELOAD", None)


def _make_bem(tmp, src):
    import sysconfig
    import numpy

    f2py = os.path.join(os.path.dirname(numpy.__file__), "f2py", "src")
    shutil.copy(src, os.path.join(tmp, "bem.f90"))
    _run([PY, "-B", "-m", "numpy.f2py", "bem.f90", "-m", "_bem", "--lower"], tmp)
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + f2py]
    jobs = [
        ["gcc", "-O2", "-fPIC", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_9_API_VERSION", *inc, "-c", "_bemmodule.c", "-o", "m.o"],
        ["gcc", "-O2", "-fPIC", "-w", *inc, "-c", os.path.join(f2py, "fortranobject.c"), "-o", "o.o"],
        ["gfortran", "-O2", "-fPIC", "-w", "-c", "bem.f90", "-o", "b.o"],
    ]
    objs = ["m.o", "o.o", "b.o"]
    for w in ("_bem-f2pywrappers.f", "_bem-f2pywrappers2.f90"):
        if os.path.exists(os.path.join(tmp, w)):
            jobs.append(["gfortran", "-O2", "-fPIC", "-w", "-c", w, "-o", w + ".o"])
            objs.append(w + ".o")
    ps = [subprocess.Popen(j, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError("build step failed: %s\n%s" % (" ".join(j), out[-3000:]))
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    _run(["gfortran", "-shared", *objs, "-o", "_bem" + suffix], tmp)
    return "_bem" + suffix


def build(quiet=True):
    """Returns {'bem':..., 'shim':..., 'xfoil':...}"""
    root = build_root()
    res = {}
    with open(os.path.join(root, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        saved = os.environ.pop("LD_PRELOAD", None)
        try:
            src = os.path.join(REPO, "ccblade", "src", "bem.f90")
            d = os.path.join(root, "bem-" + _sha([src, os.path.abspath(__file__)], sys.version.encode()))
            if not os.path.exists(os.path.join(d, "ok")):
                tmp = tempfile.mkdtemp(prefix="bem", dir=root)
                so = _make_bem(tmp, src)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                shutil.copy(os.path.join(tmp, so), d)
                open(os.path.join(d, "ok"), "w").close()
                shutil.rmtree(tmp)
            res["bem"] = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".so")][0]
            srcs = [os.path.join(HERE, "native", f) for f in ("shim.c", "xfoil.c")]
            d = os.path.join(root, "nat-" + _sha(srcs))
            if not os.path.exists(os.path.join(d, "ok")):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                _run(["gcc", "-O2", "-Wall", "-shared", "-fPIC", srcs[0], "-o", "shim.so", "-ldl"], d)
                _run(["gcc", "-O2", "-Wall", srcs[1], "-o", "xfoil", "-lm"], d)
                open(os.path.join(d, "ok"), "w").close()
            res["shim"] = os.path.join(d, "shim.so")
            res["xfoil"] = os.path.join(d, "xfoil")
        finally:
            if saved:
                os.environ["LD_PRELOAD"] = saved
    return res


if __name__ == "__main__":
    print(build())
