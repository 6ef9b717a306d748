"""Interrupts at an exact point: an asynchronous exception at the n-th traced line of a call.

Not inside clean-up: the header of a with or try statement, the body of a finally, and handlers that
raise again are passed over (no Python program can promise anything for an interrupt there, as it is
between acquiring something and protecting it, or in the middle of releasing it).
"""
import ast, sys

_unsafe = {}


def unsafe(path):
    if path in _unsafe:
        return _unsafe[path]
    res = set()
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = ast.Module([], [])

    def span(nodes):
        for n in nodes:
            res.update(range(n.lineno, n.end_lineno + 1))

    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            res.update(range(n.lineno, n.body[0].lineno))
            res.add(n.lineno)
        elif isinstance(n, ast.Try):
            res.add(n.lineno)
            span(n.finalbody)
            for h in n.handlers:
                if isinstance(h.body[-1], ast.Raise):
                    span([h])
    _unsafe[path] = res
    return res


class Injected:
    def __init__(self, repo, n, exc):
        self.pre, self.n, self.exc, self.count, self.fired, self.where = repo + "/ccblade", n, exc, 0, False, None

    def _trace(self, frame, event, arg):
        if event == "call":
            return self._trace if frame.f_code.co_filename.startswith(self.pre) else None
        if event == "line":
            self.count += 1
            if self.n is not None and self.count >= self.n and not self.fired and frame.f_lineno not in unsafe(frame.f_code.co_filename):
                self.fired = True
                self.where = frame.f_code.co_name
                raise self.exc
        return self._trace

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
}


def count_lines(repo, fn):
    with Injected(repo, None, None) as t:
        fn()
    return t.count


def run_with(repo, n, excname, fn):
    """Calls fn with an exception at its n-th line. Returns (fired, result, exception raised, injected one, where)."""
    exc = EXC[excname]("injected")
    t = Injected(repo, n, exc)
    res = err = None
    try:
        with t:
            res = fn()
    except BaseException as e:  # noqa: B902
        err = e
    return t.fired, res, err, exc, t.where
