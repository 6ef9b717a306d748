"""The disk seam in plan mode: faults for the file operations of this process below one directory."""
import ctypes, errno, os

_lib = ctypes.CDLL(os.environ["SIM_SHIM"])
_lib.sim_plan.argtypes = [ctypes.c_char_p]
_lib.sim_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
_lib.sim_short.argtypes = [ctypes.c_long, ctypes.c_long]
_lib.sim_count.argtypes = [ctypes.c_int]
_lib.sim_count.restype = ctypes.c_long
_lib.sim_log.restype = ctypes.c_char_p
_lib.sim_gate.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]


class Disk:
    """with Disk(dir, faults, short) as d: ...   faults: [class, k, verdict, errno name or number, persistent]"""

    def __init__(self, where, faults=(), short=(0, 0)):
        self.where, self.faults, self.short = os.path.realpath(where), list(faults), short

    def __enter__(self):
        _lib.sim_reset()
        for c, k, v, a, p in self.faults:
            _lib.sim_fault(ord(c), k, ord(v), getattr(errno, a) if isinstance(a, str) else a, 1 if p else 0)
        _lib.sim_short(*self.short)
        _lib.sim_plan(self.where.encode())
        return self

    def __exit__(self, *a):
        _lib.sim_off()
        self.fired = [_lib.sim_fired(i) for i in range(len(self.faults))]
        self.counts = {c: _lib.sim_count(ord(c)) for c in "orwcuntm"}
        self.log = (_lib.sim_log() or b"").decode(errors="replace")
        return False


def open_fds():
    return sorted(int(f) for f in os.listdir("/proc/self/fd") if os.path.islink("/proc/self/fd/" + f))


def gate(sock, prefix, fakepid=0, fakeppid=0):
    _lib.sim_ppid(fakeppid)
    _lib.sim_gate(sock.encode(), os.path.realpath(prefix).encode(), fakepid)
