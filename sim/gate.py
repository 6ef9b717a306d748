"""Controller of several process trees that share a directory.

Every file operation of every worker (and of the shells and XFOILs it starts) below the directory
stops at the gate (native/shim.c, mode 2) and waits.  Only when all live workers are waiting or gone
does the controller let exactly one go on: the interleaving, the faults and the kills are its
decisions.  The processes are real, their pids as the package sees them are simulated.
"""
import ctypes, errno, os, pickle, select, signal, socket, struct, sys, time

from . import disk


def _subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


class Stuck(Exception):
    pass


class Worker:
    def __init__(self, idx):
        self.idx, self.pid, self.pending, self.gone, self.killed = idx, None, None, False, False
        self.out, self.buf = None, b""
        self.nev = 0
        self.results = []
        self.exited = False


class Gate:
    def __init__(self, workdir, sock):
        self.dir, self.path = os.path.realpath(workdir), sock
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.bind(sock)
        self.s.listen(64)
        self.conns = {}  # fd -> [socket, buffer, pid, worker]
        self.workers = []
        _subreaper()

    def spawn(self, idx, fn, fakepid, env, fakeppid=0):
        """fn(report) runs in a new process with the simulated pid."""
        w = Worker(idx)
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                self.s.close()
                for c in self.conns.values():
                    c[0].close()
                os.chdir(self.dir)
                for k, v in env.items():
                    os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
                os.environ["SIM_SOCK"], os.environ["SIM_PREFIX"] = self.path, self.dir

                def report(obj):
                    d = pickle.dumps(obj)
                    os.write(wr, struct.pack("<I", len(d)) + d)

                disk.gate(self.path, self.dir, fakepid, fakeppid)
                fn(report)
            except BaseException as e:  # noqa: B902
                try:
                    report(("crash", repr(e)))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(wr)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        w.pid, w.out = pid, r
        self.workers.append(w)
        return w

    def _pump(self, timeout):
        rd = [self.s] + [c[0] for c in self.conns.values()] + [w.out for w in self.workers if w.out is not None]
        ok, _, _ = select.select(rd, [], [], timeout)
        for x in ok:
            if x is self.s:
                c, _ = self.s.accept()
                pid = struct.unpack("3i", c.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]
                try:
                    pg = os.getpgid(pid)
                except ProcessLookupError:
                    pg = None
                w = next((w for w in self.workers if w.pid == pg), None)
                self.conns[c.fileno()] = [c, b"", pid, w]
            elif isinstance(x, int):
                w = next(w for w in self.workers if w.out == x)
                d = os.read(x, 1 << 20)
                if not d:
                    os.close(x)
                    w.out = None
                else:
                    w.buf += d
                    while len(w.buf) >= 4:
                        n = struct.unpack("<I", w.buf[:4])[0]
                        if len(w.buf) < 4 + n:
                            break
                        w.results.append(pickle.loads(w.buf[4 : 4 + n]))
                        w.buf = w.buf[4 + n :]
            else:
                fd = x.fileno()
                c = self.conns.get(fd)
                if c is None:
                    continue
                try:
                    d = x.recv(8192)
                except ConnectionError:
                    d = b""
                if not d:
                    if c[3] is not None and c[3].pending is not None and c[3].pending[0] is c:
                        c[3].pending = None
                    del self.conns[fd]
                    x.close()
                else:
                    c[1] += d
                    if c[1].endswith(b"\n"):
                        cls, n, me, path = c[1].decode("utf-8", "replace")[:-1].split("\t", 3)
                        c[1] = b""
                        if c[3] is not None:
                            c[3].pending = (c, cls, int(n), me == "1", path)

    def _reap(self, w):
        while True:
            try:
                pid, _ = os.waitpid(-w.pid, os.WNOHANG)
            except ChildProcessError:
                w.gone = True
                return
            if pid == 0:
                return
            if pid == w.pid:
                w.exited = True

    def settle(self, limit=30.0):
        """Until every worker waits at the gate or is gone."""
        end = time.monotonic() + limit
        pause = 0.0002
        while True:
            busy = [w for w in self.workers if not w.gone and w.pending is None]
            if not busy:
                return [w for w in self.workers if w.pending is not None]
            self._pump(pause)
            pause = min(pause * 1.5, 0.005)
            for w in busy:
                if w.pending is None:
                    self._reap(w)
                    if w.gone:
                        while w.out is not None:  # the rest of its reports
                            self._pump(0.05)
            if time.monotonic() > end:
                raise Stuck("worker %s neither asks nor ends" % [w.idx for w in busy])

    def reply(self, w, verdict="C", arg=0):
        c = w.pending[0]
        w.pending = None
        try:
            c[0].sendall(("%s%d\n" % (verdict, arg)).encode())
        except (BrokenPipeError, ConnectionError):
            pass

    def kill(self, w, group):
        w.killed = True
        if w.pending is not None and (group or w.pending[3]):
            w.pending = None
        try:
            os.killpg(w.pid, signal.SIGKILL) if group else os.kill(w.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def close(self):
        for w in self.workers:
            if not w.gone:
                try:
                    os.killpg(w.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        for c in self.conns.values():
            c[0].close()
        self.s.close()
        for w in self.workers:
            if w.out is not None:
                os.close(w.out)
                w.out = None
            for _ in range(200):
                self._reap(w)
                if w.gone:
                    break
                time.sleep(0.005)
