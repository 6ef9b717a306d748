"""Small pure helpers: seeded choices, comparison of results, digests."""
import hashlib, json, random
import numpy as np


def rng_for(*parts):
    """A PRNG that depends on nothing but its arguments (and not on PYTHONHASHSEED)."""
    return random.Random(int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big"))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def flat(x, pre="", out=None):
    """nested dicts / tuples / lists of numbers and arrays -> {path: array}"""
    if out is None:
        out = {}
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            flat(x[k], pre + "/" + str(k), out)
    elif isinstance(x, (tuple, list)) and any(isinstance(v, (dict, tuple, list, np.ndarray)) for v in x):
        for i, v in enumerate(x):
            flat(v, pre + "/%d" % i, out)
    elif x is None or isinstance(x, (str, bool)):
        out[pre] = x
    else:
        try:
            a = np.array(x, dtype=float)  # a copy
        except (TypeError, ValueError):
            out[pre] = "object:" + type(x).__name__
        else:
            out[pre] = a
    return out


def differ(got, want, rtol=1e-7, skip=(), floor=None):
    """None if two flattened results agree, else a text that says where they do not.

    Values are compared relative to the largest magnitude in their array; NaN equals NaN.
    Keys in `skip` (prefixes) are ignored, and keys only `got` has are ignored too.  `floor` gives
    a least scale per key.
    """
    for k in want:
        if any(k.startswith(s) for s in skip):
            continue
        if k not in got:
            return "%s is missing" % k
        a, b = got[k], want[k]
        if isinstance(b, (str, bool)) or b is None or isinstance(a, (str, bool)) or a is None:
            if not (type(a) is type(b) and a == b):
                return "%s: %r instead of %r" % (k, a, b)
            continue
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (k, a.shape, b.shape)
        if a.size == 0:
            continue
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            i = np.argmax((na != nb).ravel())
            return "%s[%d]: %r instead of %r" % (k, i, float(a.ravel()[i]), float(b.ravel()[i]))
        fin = np.isfinite(b) & np.isfinite(a)
        same_inf = (a == b) | na
        if not (fin | same_inf).all():
            i = np.argmax(~(fin | same_inf).ravel())
            return "%s[%d]: %r instead of %r" % (k, i, float(a.ravel()[i]), float(b.ravel()[i]))
        if fin.any():
            scale = max(np.abs(b[fin]).max(), 1e-12, (floor or {}).get(k, 0.0))
            d = np.where(fin, np.abs(np.where(fin, a, 0.0) - np.where(fin, b, 0.0)), 0.0)
            if d.max() > rtol * scale:
                i = int(np.argmax(d.ravel()))
                return "%s[%d]: %.10g instead of %.10g" % (k, i, a.ravel()[i], b.ravel()[i])
    return None


def sig_of(flatres):
    """Short digest of a flattened result, rounded so that it only serves event logs."""
    h = hashlib.sha256()
    for k in sorted(flatres):
        v = flatres[k]
        h.update(k.encode())
        h.update(v.tobytes() if isinstance(v, np.ndarray) else str(v).encode())
    return h.hexdigest()[:12]


def outcome(fn, *a, **kw):
    """('ok', flattened result) or ('exc', class name, exception)"""
    try:
        return ("ok", flat(fn(*a, **kw)))
    except BaseException as e:  # noqa: B902 - every class counts here
        return ("exc", type(e).__name__, e)


def chain(e):
    """All exceptions linked to e."""
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is s for s in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        todo += list(getattr(x, "exceptions", ()))
    return seen
