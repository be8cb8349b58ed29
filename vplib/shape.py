"""Angle-insensitive comparison of two equilibria."""
import numpy as np


def curves(w, j, phi, nt=400):
    th = np.linspace(0, 2 * np.pi, nt, endpoint=False)
    xm, xn = np.asarray(w.xm, float), np.asarray(w.xn, float)
    a = xm[:, None] * th[None] - xn[:, None] * phi
    R = np.asarray(w.rmnc)[:, j] @ np.cos(a)
    Z = np.asarray(w.zmns)[:, j] @ np.sin(a)
    if bool(w.lasym):
        R = R + np.asarray(w.rmns)[:, j] @ np.sin(a)
        Z = Z + np.asarray(w.zmnc)[:, j] @ np.cos(a)
    return R, Z


def dist(p, q):
    """largest distance of the points p from the closed polygon q"""
    P = np.stack(p, 1)
    A = np.stack(q, 1)
    B = np.roll(A, -1, 0)
    d = B - A
    L = np.maximum((d ** 2).sum(1), 1e-300)
    t = np.clip(((P[:, None] - A[None]) * d[None]).sum(-1) / L[None], 0, 1)
    c = A[None] + t[..., None] * d[None]
    return float(np.sqrt(((P[:, None] - c) ** 2).sum(-1).min(1)).max())


def distance(w1, w2, phis=(0.0, 0.3, 0.71)):
    """largest distance between corresponding flux surfaces / minor radius,
    and the distance of the magnetic axes"""
    ns = int(w1.ns)
    out, ax = 0.0, 0.0
    for f in (phis if int(w1.ntor) else (0.0,)):
        phi = 2 * np.pi * f / int(w1.nfp)
        for j in sorted(set([1, ns // 4, ns // 2, 3 * ns // 4, ns - 1]) - {0}):
            out = max(out, dist(curves(w1, j, phi, 60), curves(w2, j, phi)),
                      dist(curves(w2, j, phi, 60), curves(w1, j, phi)))
        a, b = curves(w1, 0, phi, 1), curves(w2, 0, phi, 1)
        ax = max(ax, float(np.hypot(a[0] - b[0], a[1] - b[1])[0]))
    A = float(w1.Aminor_p)
    return out / A, ax / A


def physics(o1, o2):
    """angle-insensitive differences of two equilibria of the same problem"""
    a, b = o1.wout, o2.wout
    def rel(x, y, floor=0.0):
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        if x.shape != y.shape:
            return np.inf
        d = np.max(np.abs(x - y)) / max(float(np.max(np.abs(x))), floor, 1e-300)
        return float(d) if np.isfinite(d) else np.inf
    r = {"wb": rel(a.wb, b.wb), "wp": rel(a.wp, b.wp, 1e-6 * a.wb), "volume": rel(a.volume, b.volume),
         "iotaf": rel(a.iotaf, b.iotaf, 1e-2), "vp": rel(a.vp, b.vp), "bvco": rel(a.bvco, b.bvco),
         "buco": rel(a.buco, b.buco, 1e-3 * float(np.max(np.abs(a.bvco)))), "betatotal": rel(a.betatotal, b.betatotal, 1e-4),
         "volavgB": rel(a.volavgB, b.volavgB), "phi": rel(a.phi, b.phi)}
    r["surfaces"], r["axis"] = distance(a, b)
    return r


def limits(d, slack=1.0):
    """Largest differences to be expected between converged states of one
    problem reached along different paths.  For 3-D or asymmetric runs the
    method leaves the m=1 poloidal-angle gauge to the path, which shows at the
    level of the (low) Fourier resolution."""
    if d.get("ntor"):
        L = {"wb": 2e-3, "wp": 1e-2, "volume": 1e-10, "iotaf": 6e-2, "vp": 2e-2, "bvco": 2e-3, "buco": 1e-9,
             "betatotal": 1e-2, "volavgB": 1e-3, "phi": 1e-12, "surfaces": 5e-2, "axis": 4e-2}
    elif d.get("lasym"):
        L = {"wb": 2e-5, "wp": 1e-4, "volume": 1e-10, "iotaf": 1e-3, "vp": 1e-3, "bvco": 1e-4, "buco": 1e-3,
             "betatotal": 1e-4, "volavgB": 1e-5, "phi": 1e-12, "surfaces": 4e-3, "axis": 4e-3}
    else:
        L = {"wb": 1e-8, "wp": 1e-6, "volume": 1e-10, "iotaf": 2e-5, "vp": 2e-5, "bvco": 1e-6, "buco": 2e-5,
             "betatotal": 1e-6, "volavgB": 1e-8, "phi": 1e-12, "surfaces": 3e-4, "axis": 5e-5}
    if d.get("lfreeb"):
        L.update(volume=3e-3, wb=max(L["wb"], 2e-4), volavgB=max(L["volavgB"], 2e-3), vp=max(L["vp"], 5e-3),
                 wp=max(L["wp"], 5e-3), surfaces=max(L["surfaces"], 1e-2), axis=max(L["axis"], 5e-3),
                 betatotal=max(L["betatotal"], 5e-3), bvco=max(L["bvco"], 1e-4), buco=max(L["buco"], 5e-3))
    if d.get("ncurr", 0) == 0:
        L["buco"] = max(L["buco"], 3 * L["iotaf"] if d.get("ntor") else L["buco"])
    if not d.get("ntor"):
        slack = max(1.0, min(slack, 2.0))
    return {k: v if k in ("volume", "phi") and not d.get("lfreeb") else v * slack for k, v in L.items()}
