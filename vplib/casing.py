"""Virtual-casing evaluation of a free-boundary equilibrium.

With mu0 K = n x B on the plasma surface, the coil field plus the field of the
surface current K vanishes everywhere inside (if B is the field just outside
and is tangential).  Pressure vanishing at the edge, the inner edge field is
that field."""
import numpy as np

MU0 = 4e-7 * np.pi


def modes(c, s, xm, xn, U, V):
    n = len(xm)
    c = np.zeros(n) if c is None else np.asarray(c, float)
    s = np.zeros(n) if s is None else np.asarray(s, float)
    f = np.zeros_like(U)
    fu = np.zeros_like(U)
    fv = np.zeros_like(U)
    for k in range(n):
        if c[k] == 0 and s[k] == 0:
            continue
        a = xm[k] * U - xn[k] * V
        co, si = np.cos(a), np.sin(a)
        f += c[k] * co + s[k] * si
        d = -c[k] * si + s[k] * co
        fu += xm[k] * d
        fv -= xn[k] * d
    return f, fu, fv


def surface(w, nu=48, nv=32, j=-1):
    """points, area normals (outward, weighted) and inner edge field"""
    nfp = int(w.nfp)
    if not int(w.ntor):
        nv = max(nv, 96)
    u = 2 * np.pi * np.arange(nu) / nu
    v = 2 * np.pi * np.arange(nv * nfp) / (nv * nfp)
    U, V = np.meshgrid(u, v, indexing="ij")
    la = bool(w.lasym)
    g = lambda n: np.asarray(getattr(w, n), float)
    edge = lambda n: 1.5 * g(n)[:, -1] - .5 * g(n)[:, -2]
    xm, xn = np.asarray(w.xm, float), np.asarray(w.xn, float)
    R, Ru, Rv = modes(g("rmnc")[:, j], g("rmns")[:, j] if la else None, xm, xn, U, V)
    Z, Zu, Zv = modes(g("zmnc")[:, j] if la else None, g("zmns")[:, j], xm, xn, U, V)
    xm, xn = np.asarray(w.xm_nyq, float), np.asarray(w.xn_nyq, float)
    bu = modes(edge("bsupumnc"), edge("bsupumns") if la else None, xm, xn, U, V)[0]
    bv = modes(edge("bsupvmnc"), edge("bsupvmns") if la else None, xm, xn, U, V)[0]
    c, s = np.cos(V), np.sin(V)
    X = np.stack([R * c, R * s, Z], -1)
    Xu = np.stack([Ru * c, Ru * s, Zu], -1)
    Xv = np.stack([Rv * c - R * s, Rv * s + R * c, Zv], -1)
    B = bu[..., None] * Xu + bv[..., None] * Xv
    N = np.cross(Xu, Xv) * (2 * np.pi / nu) * (2 * np.pi / (nv * nfp))
    N *= np.sign(np.sum(X * N))
    return X.reshape(-1, 3), N.reshape(-1, 3), B.reshape(-1, 3)


def interior(w, rng, n):
    """points inside the plasma, up to half the minor radius"""
    ns = int(w.ns)
    out = []
    la = bool(w.lasym)
    g = lambda k: np.asarray(getattr(w, k), float)
    xm, xn = np.asarray(w.xm, float), np.asarray(w.xn, float)
    for _ in range(n):
        j = int(rng.integers(0, max(2, ns // 4)))
        U, V = np.array(rng.uniform(0, 2 * np.pi)), np.array(rng.uniform(0, 2 * np.pi))
        R = modes(g("rmnc")[:, j], g("rmns")[:, j] if la else None, xm, xn, U, V)[0]
        Z = modes(g("zmnc")[:, j] if la else None, g("zmns")[:, j], xm, xn, U, V)[0]
        out.append([R * np.cos(V), R * np.sin(V), Z])
    return np.array(out, float)


def casing_field(X, N, B, P):
    K = np.cross(N, B) / MU0
    out = []
    for p in P:
        d = p - X
        out.append(MU0 / 4 / np.pi * np.sum(np.cross(K, d) / np.linalg.norm(d, axis=1)[:, None] ** 3, 0))
    return np.array(out)


def coils(path, currents):
    """configuration (see c15.config_field) from a coils file"""
    circ, order, cur, on = {}, [], [], False
    for l in open(path):
        q = l.split()
        if q[:2] == ["begin", "filament"]:
            on = True
            continue
        if not on or not q or q[0] == "mirror":
            continue
        if q[0] == "end":
            break
        cur.append([float(x) for x in q[:4]])
        if len(q) == 6:
            if q[4] not in circ:
                circ[q[4]] = {"current": 1.0, "coils": []}
                order.append(q[4])
            f = {"t": "circle", "c": [0., 0., cur[0][2]], "n": [0., 0., 1.], "r": cur[0][0]} if len(cur) == 1 \
                else {"t": "polygon", "v": [c[:3] for c in cur]}
            circ[q[4]]["coils"].append({"w": cur[0][3], "carriers": [f]})
            cur = []
    cfg = {"circuits": [circ[o] for o in order]}
    for c, i in zip(cfg["circuits"], currents):
        c["current"] = float(i)
    return cfg
