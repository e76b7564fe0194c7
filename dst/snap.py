"""Snapshots of pyuvdata objects and structural comparison.

Only the public parameter protocol of the objects is used (iteration over an
object yields its parameter names), so that nothing here depends on how the
package implements its own equality.
"""
import hashlib

import numpy as np


def params(obj):
    """All parameter names of an object (without the leading underscore)."""
    return sorted({p[1:] if p.startswith("_") else p for p in obj})


def norm(v, depth=0):
    """A deep, immutable-by-convention copy of a value in plain types."""
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return v
    if isinstance(v, np.ndarray) and type(v) is np.ndarray:
        if v.dtype == object:
            return ("objarr", v.shape, [norm(x, depth + 1) for x in v.ravel()])
        return v.copy()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {norm_key(k): norm(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm(x, depth + 1) for x in v), key=repr)
    tn = type(v).__name__
    if tn in ("EarthLocation", "MoonLocation"):
        return {"__loc__": tn, "xyz": np.array([v.x.to_value("m"), v.y.to_value("m"), v.z.to_value("m")], dtype=float)}
    if hasattr(v, "unit") and hasattr(v, "value"):
        return {"__qty__": str(v.unit), "value": np.array(v.value)}
    if hasattr(v, "jd1"):
        return {"__time__": v.scale, "jd1": np.array(v.jd1), "jd2": np.array(v.jd2)}
    if hasattr(v, "__iter__") and hasattr(v, "check"):
        return snap(v)
    if hasattr(v, "frame") or hasattr(v, "ra"):
        return repr(v)
    return repr(v)


def norm_key(k):
    if isinstance(k, np.generic):
        return k.item()
    return k


def snap(obj, skip=()):
    out = {"__class__": type(obj).__name__}
    for p in params(obj):
        if p in skip:
            continue
        out[p] = norm(getattr(obj, p))
    return out


def _is_num(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def diff(a, b, path="", tol=None, strict_dtype=False, ignore=()):
    """List of paths at which two normalised values differ.

    tol: function path -> (rtol, atol) or None for exact.
    """
    out = []
    _diff(a, b, path, tol, strict_dtype, ignore, out)
    return out


def _close(a, b, t):
    if t is None:
        return False
    rt, at = t
    try:
        return bool(np.allclose(a, b, rtol=rt, atol=at, equal_nan=True))
    except TypeError:
        return False


def _diff(a, b, path, tol, strict_dtype, ignore, out):
    if len(out) > 20:
        return
    last = path.rsplit(".", 1)[-1]
    if path in ignore or last in ignore:
        return
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            pk = f"{path}.{k}" if path else str(k)
            if pk in ignore or str(k) in ignore:
                continue
            if k not in a:
                out.append(f"{pk}: only on right ({_short(b[k])})")
            elif k not in b:
                out.append(f"{pk}: only on left ({_short(a[k])})")
            else:
                _diff(a[k], b[k], pk, tol, strict_dtype, ignore, out)
        return
    t = tol(path) if tol else None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            aa, bb = np.asarray(a), np.asarray(b)
        except ValueError:
            out.append(f"{path}: {_short(a)} != {_short(b)}")
            return
        if a is None or b is None:
            out.append(f"{path}: {_short(a)} != {_short(b)}")
            return
        if aa.shape != bb.shape:
            out.append(f"{path}: shape {aa.shape} != {bb.shape}")
            return
        if strict_dtype and aa.dtype != bb.dtype:
            out.append(f"{path}: dtype {aa.dtype} != {bb.dtype}")
            return
        if aa.dtype.kind in "fc" or bb.dtype.kind in "fc":
            if aa.dtype.kind in "US" or bb.dtype.kind in "US":
                out.append(f"{path}: dtype {aa.dtype} != {bb.dtype}")
                return
            eq = (aa == bb) | ((aa != aa) & (bb != bb))
            if not eq.all() and not _close(aa, bb, t):
                bad = np.argwhere(~eq)
                i = tuple(bad[0])
                out.append(f"{path}: {len(bad)} values differ, first at {tuple(int(x) for x in i)}: {aa[i]!r} != {bb[i]!r}")
        else:
            eq = aa == bb
            if not np.all(eq):
                out.append(f"{path}: {_short(aa)} != {_short(bb)}")
        return
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append(f"{path}: length {len(a)} != {len(b)}")
            return
        for i, (x, y) in enumerate(zip(a, b)):
            _diff(x, y, f"{path}[{i}]", tol, strict_dtype, ignore, out)
        return
    if _is_num(a) and _is_num(b):
        if a == b or (a != a and b != b) or _close(a, b, t):
            return
        out.append(f"{path}: {a!r} != {b!r}")
        return
    if type(a) is not type(b) or a != b:
        out.append(f"{path}: {_short(a)} != {_short(b)}")


def _short(v):
    s = repr(v).replace("\n", " ")
    return s if len(s) < 120 else s[:117] + "..."


def digest(v):
    """Stable digest of a normalised value."""
    h = hashlib.sha256()
    _feed(h, v)
    return h.hexdigest()[:16]


def _feed(h, v):
    if isinstance(v, np.ndarray):
        h.update(str(v.dtype).encode() + str(v.shape).encode())
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, dict):
        for k in sorted(v, key=repr):
            h.update(repr(k).encode())
            _feed(h, v[k])
    elif isinstance(v, (list, tuple)):
        h.update(b"[%d" % len(v))
        for x in v:
            _feed(h, x)
    else:
        h.update(repr(v).encode())
