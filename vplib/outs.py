"""Flattening and comparing complete outputs."""
import enum

import numpy as np


def flat(o, prefix="", out=None):
    """VmecOutput (or any pydantic model) -> {dotted name: value}"""
    out = {} if out is None else out
    for k in type(o).model_fields:
        v = getattr(o, k)
        n = f"{prefix}{k}"
        if hasattr(type(v), "model_fields"):
            flat(v, n + ".", out)
        else:
            out[n] = v
    return out


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def identical(o1, o2, skip=()):
    """names of members that are not bit-for-bit equal"""
    f1, f2 = flat(o1), flat(o2)
    return [k for k in f1 if not any(k.startswith(s) for s in skip) and not equal(f1[k], f2[k])]


def num(v):
    if isinstance(v, (bool, str, enum.Enum)) or v is None:
        return None
    try:
        a = np.asarray(v)
    except Exception:
        return None
    return a.astype(float) if a.dtype.kind in "fiu" else None


def diff(o1, o2, names=None, skip=(), floor=None):
    """{name: max |a-b| / max|a|} over the numeric members"""
    f1, f2 = flat(o1), flat(o2)
    out = {}
    for k in f1:
        if names is not None and k not in names:
            continue
        if any(k.startswith(s) for s in skip):
            continue
        a, b = num(f1[k]), num(f2[k])
        if a is None:
            continue
        if a.shape != b.shape:
            out[k] = np.inf
            continue
        if a.size == 0:
            continue
        sc = max(float(np.nanmax(np.abs(a))), (floor or {}).get(k, 0.0), 1e-300)
        d = np.atleast_1d(np.abs(a - b))
        d[np.atleast_1d(np.isnan(a) & np.isnan(b))] = 0
        out[k] = float(np.max(d) / sc) if np.all(np.isfinite(d)) else np.inf
    return out


# geometry-level quantities that characterise an equilibrium
GEOM = ["wout.rmnc", "wout.zmns", "wout.lmns_full", "wout.bmnc", "wout.gmnc", "wout.iotaf", "wout.presf", "wout.phi",
        "wout.vp", "wout.bvco", "wout.wb", "wout.volume", "wout.aspect", "wout.rmax_surf",
        "wout.rmin_surf", "wout.betatotal", "wout.volavgB", "wout.bsupvmnc", "wout.bsubvmnc", "wout.raxis_cc"]
