"""A process that is not like ours: started by worlds/c22.py with its own interpreter options, environment,
clock, process id, descriptors and memory; does the operations of the plan and writes what came out.

argv: request file, answer file
"""
import os, pickle, sys


def other_machine(m):
    """Another computer, user and load"""
    import platform, socket

    os.cpu_count = lambda: m["cpus"]
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    os.sched_getaffinity = lambda pid: set(range(m["cpus"] or 1))
    os.getloadavg = lambda: (m["load"], m["load"] / 2, 0.0)
    os.getlogin = lambda: m["user"]
    os.getuid = os.geteuid = lambda: m["uid"]
    os.getppid = lambda: m["ppid"]
    platform.node = socket.gethostname = lambda: m["host"]
    try:
        import multiprocessing

        multiprocessing.cpu_count = lambda: m["cpus"] or 1
    except ImportError:
        pass


def liar(seed, place):
    """Whatever variable of the environment the package itself looks up is set, to something"""
    import zlib

    env, own = type(os.environ), place + "/ccblade/"
    get, has = env.__getitem__, env.__contains__

    def asked():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename.endswith(("/os.py", "_collections_abc.py", "<frozen os>", "<frozen _collections_abc>")):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(own)

    def __getitem__(self, k):
        if asked():
            return ["1", "0", "", "3", "true", "fast", "1e-3", "/nonexistent"][zlib.crc32(("%s %s" % (seed, k)).encode()) % 8]
        return get(self, k)

    env.__getitem__ = __getitem__
    env.__contains__ = lambda self, k: asked() or has(self, k)


def main(req, ans):
    with open(req, "rb") as f:
        plan = pickle.load(f)
    v = plan["env"]

    def mark(s):
        with open(ans + ".stage", "w") as f:
            f.write(s)

    sys.path.insert(0, plan["here"])
    sys.path.insert(0, plan["place"])
    import gc

    junk = []
    import random

    r = random.Random(v["junk"])
    for _ in range(v["njunk"]):
        junk.append(bytearray(r.choice([24, 64, 500, 4000, 70000])))
        if r.random() < 0.4:
            junk.pop(r.randrange(len(junk)))
    if v["gc"] == "off":
        gc.disable()
    elif v["gc"] == "often":
        gc.set_threshold(11, 2, 2)
    if v["early"] == "numpy":
        import numpy, scipy.optimize, scipy.interpolate  # noqa: F401
    mark("libraries")
    import importlib.util

    import numpy  # noqa: F811
    import scipy.optimize, scipy.interpolate  # noqa: F401,F811

    if plan["om"]:
        import openmdao.api  # noqa: F401
    mark("package")
    spec = importlib.util.spec_from_file_location("ccblade._bem", os.environ["SIM_BEM"])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["ccblade._bem"] = mod
    spec.loader.exec_module(mod)
    import importlib

    for m in v["imports"]:
        if m == "ccblade.ccblade_component" and not plan["om"]:
            continue
        importlib.import_module(m)
    import ccblade

    ccblade._bem = mod
    mark("harness")
    for _ in range(v["njunk"]):
        junk.append(bytearray(r.choice([24, 64, 500, 4000, 70000])))
    sys.argv = list(v["argv"])
    if v["nofile"]:
        try:
            del sys.modules["__main__"].__file__
        except AttributeError:
            pass
    from worlds import c22

    if v.get("machine"):
        other_machine(v["machine"])
    if v.get("liar") is not None:
        liar(v["liar"], plan["place"])
    mark("operations")
    box = {}

    def work():
        box["out"] = c22.perform(plan)

    if v["thread"]:
        import threading

        t = threading.Thread(target=work, name=v["thread"], daemon=v["thread"] != "Thread-1")
        t.start()
        t.join()
    else:
        work()
    os.chdir("/")
    with open(ans, "wb") as f:
        pickle.dump(box["out"], f)
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
