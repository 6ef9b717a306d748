"""An airfoil with a fault seam: the n-th evaluation (over all of them) can raise or yield NaN."""
import numpy as np
from ccblade.ccblade import CCAirfoil


class Ctl:
    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0  # evaluations so far
        self.nd = 0
        self.raise_at = None  # (class, which call: "e" evaluate / "d" derivatives, n-th call)
        self.nan = None  # {tag: (first, last, which, pitch or None)}: NaN from the first to the last evaluation of that airfoil
        self.per = {}
        self.rotor = None
        self.nan_hits = 0
        self.fired = None
        self.tag_only = None


ctl = Ctl()


class CustomModelError(Exception):
    pass


EXC = {c.__name__: c for c in (ValueError, ZeroDivisionError, FloatingPointError, RuntimeError, TypeError, KeyError, IndexError, AttributeError, OSError, ArithmeticError,
                               OverflowError, StopIteration, AssertionError, KeyboardInterrupt, MemoryError, SystemExit, GeneratorExit, RecursionError, NotImplementedError,
                               UnboundLocalError, LookupError, UserWarning, RuntimeWarning, np.linalg.LinAlgError, CustomModelError)}


class SimAF(CCAirfoil):
    tag = None

    def _hit(self, which):
        c = ctl
        if which == "e":
            c.n += 1
            k = c.n
        else:
            c.nd += 1
            k = c.nd
        if c.raise_at is not None and c.raise_at[1] == which and k == c.raise_at[2] and c.fired is None:
            c.fired = EXC[c.raise_at[0]]("injected")
            raise c.fired

    def evaluate(self, alpha, Re, return_cm=False):
        self._hit("e")
        res = super().evaluate(alpha, Re, return_cm)
        c = ctl
        if c.nan is not None and self.tag in c.nan:
            first, last, which, pitch = c.nan[self.tag]
            if pitch is None or getattr(c.rotor, "pitch", None) == pitch:
                k = c.per[self.tag] = c.per.get(self.tag, 0) + 1
                if first <= k and (last is None or k <= last):
                    c.nan_hits += 1
                    res = tuple(np.float64("nan") if i < 2 and (which == "both" or (which == "cl") == (i == 0)) else v for i, v in enumerate(res))
        return res

    def derivatives(self, alpha, Re):
        self._hit("d")
        return super().derivatives(alpha, Re)


class FaultySpline:
    """A spline whose n-th use raises."""

    def __init__(self, real):
        self.__dict__["_real"] = real

    def _hit(self):
        sp = spl
        sp.n += 1
        if sp.raise_at is not None and sp.n == sp.raise_at[1] and sp.fired is None:
            sp.fired = EXC[sp.raise_at[0]]("injected")
            raise sp.fired

    def ev(self, *a, **k):
        self._hit()
        return self._real.ev(*a, **k)

    def __call__(self, *a, **k):
        self._hit()
        return self._real(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "tck":
            self._hit()
        return getattr(self.__dict__["_real"], name)


class Spl:
    n = 0
    raise_at = None
    fired = None

    def reset(self):
        self.n, self.raise_at, self.fired = 0, None, None


spl = Spl()


def wrap_splines(af):
    for k, v in list(vars(af).items()):
        if k.endswith("_spline") and not isinstance(v, FaultySpline):
            setattr(af, k, FaultySpline(v))
