"""Worker processes of a simulated cluster: real processes, forked while the run is still pristine,
that do nothing but answer one request at a time (so the simulator decides when they work)."""
import os, pickle, signal, struct, sys


class Died(Exception):
    pass


class Remote:
    def __init__(self, handler):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1])
            os.close(b[0])
            code = 1
            try:
                state = {}
                while True:
                    req = self._read(a[0])
                    if req is None:
                        break
                    try:
                        ans = ("ok", handler(state, req))
                    except Exception as e:
                        ans = ("exc", type(e).__name__ + ": " + str(e)[:200])
                    self._write(b[1], ans)
                code = 0
            finally:
                os._exit(code)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = a[1], b[0]

    @staticmethod
    def _write(fd, obj):
        d = pickle.dumps(obj)
        d = struct.pack("<Q", len(d)) + d
        while d:
            d = d[os.write(fd, d):]

    @staticmethod
    def _read(fd):
        def get(n):
            out = b""
            while len(out) < n:
                c = os.read(fd, n - len(out))
                if not c:
                    return None
                out += c
            return out

        h = get(8)
        return None if h is None else pickle.loads(get(struct.unpack("<Q", h)[0]))

    def call(self, req):
        self._write(self.w, req)
        r = self._read(self.r)
        if r is None:
            raise Died()
        return r

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.w)
        os.close(self.r)
