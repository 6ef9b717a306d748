"""Deterministic scheduling of the caller's threads.

Real threads, but only one runs at any moment: each is parked on its own semaphore, and the only
way the baton moves is a decision taken here.  Scheduling points are the line
events of the code under test and the acquire of a lock made by the code under test.  The decisions
are data: a list of [event number, thread], so a run is repeated by giving the same list.
"""
import _thread, sys, threading

_alloc = _thread.allocate_lock
_RLock = _thread.RLock
_real_Lock, _real_RLock = threading.Lock, threading.RLock

current = None  # the active Scheduler


class Deadlock(BaseException):
    pass


class SimLock:
    """Stands for the locks the code under test makes for itself."""

    def __init__(self, re=False):
        self.re, self.owner, self.n = re, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            s = current
            if s is None or me not in s.by_ident:
                raise Deadlock("a lock that is held is acquired, and nobody is left to release it")
            if timeout is not None and timeout > 0 and not s.others_runnable():
                return False
            s.block(self)
        self.owner, self.n = me, self.n + 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0
            if current is not None:
                current.wake(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # threading.Condition looks for these
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        n, self.n = self.n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def patch_locks(repo):
    def ours():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename.endswith("/threading.py"):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(repo + "/")

    def Lock():
        return SimLock() if ours() else _alloc()

    def RLock():
        return SimLock(True) if ours() else _RLock()

    threading.Lock, threading.RLock = Lock, RLock
    threading._allocate_lock = Lock
    _thread.allocate_lock = Lock


def rearm():
    """An exception in the trace function switches tracing off in that thread: on again."""
    if current is not None:
        sys.settrace(current._trace)


class Scheduler:
    def __init__(self, repo, points):
        self.pre = repo + "/ccblade"
        self.points = sorted((int(e), int(t)) for e, t in points if e >= 0)
        self.fresh = {-int(e): int(t) for e, t in points if e < 0}  # at the n-th line executed for the first time
        self.seen = set()
        self.pi, self.ev = 0, 0
        self.sems, self.state, self.waiting, self.by_ident = [], [], [], {}
        self.done_sem = _alloc()
        self.done_sem.acquire()
        self.switches = []
        self.deadlock = False
        self.errors = {}
        self.hook = None  # called at every event with (thread, n-th event of this thread)
        self.tev = []

    def run(self, fns):
        """Runs all functions to their end; returns a list of results or exceptions."""
        global current
        n = len(fns)
        self.out = [None] * n
        self.sems = [_alloc() for _ in fns]
        for s in self.sems:
            s.acquire()
        self.state = ["run"] * n
        self.waiting = [None] * n
        self.tev = [0] * n
        current = self
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        self.cur = 0
        old = sys.gettrace()
        sys.settrace(lambda f, e, a: None)  # CPython keeps the code instrumented while anybody traces
        try:
            self.sems[0].release()
            self.done_sem.acquire()
        finally:
            sys.settrace(old)
        current = None
        return self.out

    def _body(self, i, fn):
        self.sems[i].acquire()
        self.by_ident[_thread.get_ident()] = i
        try:
            sys.settrace(self._trace)
            try:
                r = ("ok", fn())
            finally:
                sys.settrace(None)
        except BaseException as e:
            r = ("exc", e)
        self.out[i] = r
        self.state[i] = "done"
        self._next(i)

    def runnable(self):
        return [i for i, s in enumerate(self.state) if s == "run"]

    def others_runnable(self):
        me = self.by_ident.get(_thread.get_ident())
        return [i for i in self.runnable() if i != me]

    def _next(self, me):
        r = self.runnable()
        if not r:
            if all(s == "done" for s in self.state):
                self.done_sem.release()
                return
            self.deadlock = True  # let every waiter fail
            for i, s in enumerate(self.state):
                if s == "wait":
                    self.state[i] = "run"
            r = self.runnable()
        nxt = next((i for i in r if i > me), r[0])
        self._to(me, nxt)

    def _to(self, me, nxt):
        if nxt == me:
            return
        self.switches.append((self.ev, me, nxt))
        self.cur = nxt
        self.sems[nxt].release()
        if self.state[me] != "done":
            self.sems[me].acquire()

    def block(self, lock):
        me = self.by_ident[_thread.get_ident()]
        self.state[me], self.waiting[me] = "wait", lock
        self._next(me)
        self.waiting[me] = None
        if self.deadlock:
            raise Deadlock("all remaining threads wait for each other")

    def wake(self, lock):
        for i, w in enumerate(self.waiting):
            if w is lock and self.state[i] == "wait":
                self.state[i] = "run"

    def _trace(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_filename.startswith(self.pre):
                return self._trace
            return None
        if event == "line":
            me = self.cur
            self.ev += 1
            self.tev[me] += 1
            if self.hook is not None:
                self.hook(me, self.tev[me])
            if self.fresh:
                k = (frame.f_code, frame.f_lineno)
                if k not in self.seen:
                    self.seen.add(k)
                    t = self.fresh.pop(len(self.seen), None)
                    if t is not None:
                        r = [i for i in self.runnable() if i != me]
                        if r:
                            self._to(me, r[t % len(r)])
            if self.pi < len(self.points) and self.points[self.pi][0] <= self.ev:
                t = self.points[self.pi][1]
                while self.pi < len(self.points) and self.points[self.pi][0] <= self.ev:
                    self.pi += 1
                r = self.runnable()
                if len(r) > 1:
                    self._to(me, r[t % len(r)])
        return self._trace
