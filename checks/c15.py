"""C15: coil files, field tables and grid files against an independent
Biot-Savart evaluation (NumPy: straight segments in closed form, circular
loops by quadrature)."""
import json
import os
import subprocess
import tempfile

import numpy as np

from vplib import nc3

MU0 = 4e-7 * np.pi          # CODATA 2018 differs by 5.5e-10
RTOL = 1e-8


# ------------------------------------------------------------------ oracle
def seg_field(P, Q, I, X):
    """field of one straight segment P->Q at the points X (n,3)"""
    d = Q - P
    L = np.linalg.norm(d)
    if L == 0:
        return np.zeros_like(X)
    t = d / L
    u = X - P
    s = u @ t
    perp = u - s[:, None] * t
    rho2 = np.einsum("ij,ij->i", perp, perp)
    ri = np.linalg.norm(u, axis=1)
    rf = np.linalg.norm(X - Q, axis=1)
    # (cos1 - cos2)/rho^2, written without cancellation for points off the axis
    with np.errstate(divide="ignore", invalid="ignore"):
        # s/ri + (L-s)/rf over rho2;   equals (L (ri+rf)... ) Hanson-Hirshman
        k = 2 * L * (ri + rf) / (ri * rf * ((ri + rf) ** 2 - L * L))
    return MU0 * I / (4 * np.pi) * k[:, None] * np.cross(np.broadcast_to(t, u.shape), u)


def circle_field(c, n, R, I, X, N=2048):
    n = np.asarray(n, float)
    n = n / np.linalg.norm(n)
    a = np.eye(3)[np.argmin(abs(n))]
    e1 = np.cross(n, a)
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(n, e1)
    th = 2 * np.pi * np.arange(N) / N
    B = np.zeros_like(X)
    for t in th:
        p = np.asarray(c) + R * (np.cos(t) * e1 + np.sin(t) * e2)
        dl = R * (-np.sin(t) * e1 + np.cos(t) * e2) * (2 * np.pi / N)
        u = X - p
        B += np.cross(np.broadcast_to(dl, u.shape), u) / np.linalg.norm(u, axis=1)[:, None] ** 3
    return MU0 * I / (4 * np.pi) * B


def line_field(o, d, I, X):
    d = np.asarray(d, float)
    d = d / np.linalg.norm(d)
    u = X - np.asarray(o)
    perp = u - (u @ d)[:, None] * d
    rho2 = np.einsum("ij,ij->i", perp, perp)
    return MU0 * I / (2 * np.pi) * np.cross(np.broadcast_to(d, u.shape), perp) / rho2[:, None]


def carrier_field(k, I, X):
    if k["t"] == "line":
        return line_field(k["o"], k["d"], I, X)
    if k["t"] == "circle":
        return circle_field(k["c"], k["n"], k["r"], I, X)
    v = np.array(k["v"], float)
    B = np.zeros_like(X)
    for i in range(len(v) - 1):
        B += seg_field(v[i], v[i + 1], I, X)
    return B


def carrier_distance(k, X):
    if k["t"] == "line":
        d = np.asarray(k["d"], float)
        d = d / np.linalg.norm(d)
        u = X - np.asarray(k["o"])
        return np.linalg.norm(u - (u @ d)[:, None] * d, axis=1)
    if k["t"] == "circle":
        n = np.asarray(k["n"], float)
        n = n / np.linalg.norm(n)
        u = X - np.asarray(k["c"])
        z = u @ n
        r = np.linalg.norm(u - z[:, None] * n, axis=1)
        return np.hypot(r - k["r"], z) / k["r"]
    v = np.array(k["v"], float)
    out = np.full(len(X), np.inf)
    for i in range(len(v) - 1):
        d = v[i + 1] - v[i]
        L2 = d @ d
        t = np.clip((X - v[i]) @ d / L2, 0, 1) if L2 else np.zeros(len(X))
        out = np.minimum(out, np.linalg.norm(X - v[i] - t[:, None] * d, axis=1))
    return out


def config_field(cfg, X, only=None):
    B = np.zeros_like(X)
    S = np.zeros(len(X))
    for i, c in enumerate(cfg["circuits"]):
        if only is not None and i != only:
            continue
        for k in c["coils"]:
            w = 1.0 if k["w"] is None else k["w"]
            for f in k["carriers"]:
                b = carrier_field(f, c["current"] * w, X)
                B += b
                S += np.linalg.norm(b, axis=1)
    return B, S


def config_near(cfg, X):
    out = np.full(len(X), np.inf)
    for c in cfg["circuits"]:
        for k in c["coils"]:
            for f in k["carriers"]:
                out = np.minimum(out, carrier_distance(f, X))
    return out


# ---------------------------------------------------------------- generators
def num(rng, x, exact=False):
    """a textual form of x; returns (text, value of that text)"""
    if exact:
        return repr(float(x)), float(x)
    s = {0: f"{x:.17g}", 1: f"{x:.6f}", 2: f"{x:.10E}", 3: f"{x:+.8e}"}[int(rng.integers(4))]
    return s, float(s)


def rand_polygon(rng, R0=1.6, closed=True):
    n = int(rng.integers(3, 40))
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if rng.integers(2) else 2 * np.pi * np.arange(n) / n
    kind = rng.integers(3)
    phi0 = rng.uniform(0, 2 * np.pi)
    a = rng.uniform(.5, .9)
    if kind == 0:      # a coil linking the torus
        R = R0 + a * np.cos(t)
        Z = a * np.sin(t) + rng.uniform(-.1, .1)
        ph = phi0 + rng.uniform(-.1, .1) * np.sin(t)
    elif kind == 1:    # a ring around the machine
        R = rng.choice([.3, 2.8]) + .1 * np.cos(3 * t)
        Z = rng.uniform(-.5, .5) + .1 * np.sin(2 * t)
        ph = t
    else:              # something small outside
        R = 3.0 + .2 * np.cos(t)
        Z = .9 + .2 * np.sin(t)
        ph = phi0 + 0 * t
    v = np.stack([R * np.cos(ph), R * np.sin(ph), Z], 1)
    if rng.integers(2):
        v = v[::-1]
    if closed:
        v = np.concatenate([v, v[:1]])
    return v


def coils_text(rng, spec, exact=False):
    """spec: list of (circuit id, kind, data, w, name) in file order.
    Returns the text and the description it encodes."""
    sp = lambda: str(rng.choice([" ", "  ", "   ", "\t"]))
    ind = lambda: str(rng.choice(["", " ", "   "]))
    out = []
    if rng.integers(2):
        out.append("# coils written by a test")
    out.append(f"periods{sp()}{int(rng.integers(1, 6))}")
    out.append("begin filament")
    if rng.integers(2):
        out.append(str(rng.choice(["mirror NIL", "mirror NUL", " mirror  nul"])))
    circuits, order = {}, []
    for cid, kind, data, w, name in spec:
        ws, wv = num(rng, w, exact)
        if kind == "circle":
            rs, rv = num(rng, data[0], exact)
            zs, zv = num(rng, data[1], exact)
            out.append(ind() + sp().join([rs, "0.0", zs, ws, str(cid), name]))
            f = {"t": "circle", "c": [0.0, 0.0, zv], "n": [0.0, 0.0, 1.0], "r": rv, "name": name}
        else:
            vs = []
            for i, p in enumerate(data):
                t = [num(rng, q, exact) for q in p]
                vs.append([q[1] for q in t])
                row = [q[0] for q in t]
                if i == len(data) - 1:
                    row += ["0.0", str(cid), name]
                else:
                    row += [ws]
                out.append(ind() + sp().join(row) + ind())
            f = {"t": "polygon", "v": vs, "name": name}
        if cid not in circuits:
            circuits[cid] = {"current": 1.0, "coils": []}
            order.append(cid)
        circuits[cid]["coils"].append({"w": wv, "carriers": [f]})
    out.append("end")
    eol = "\r\n" if rng.integers(4) == 0 else "\n"
    return eol.join(out) + eol, {"circuits": [circuits[c] for c in order]}


def rand_spec(rng, n=None):
    ids = [int(i) for i in rng.choice([1, 2, 3, 5, 7, 12, 40], int(rng.integers(1, 4)), replace=False)]
    n = n or int(rng.integers(len(ids), 6))
    seq = ids + [ids[int(rng.integers(len(ids)))] for _ in range(n - len(ids))]
    rng.shuffle(seq)
    out = []
    for i, cid in enumerate(seq):
        w = float(rng.choice([1.0, -1.0, 36.0, -2.5e3, 1.25e5, -7.7e-3]))
        if rng.integers(3) == 0:
            out.append((cid, "circle", (float(rng.choice([.3, 2.8, 3.1])), float(rng.uniform(-.6, .6))), w, f"loop{i}"))
        else:
            out.append((cid, "polygon", rand_polygon(rng), w, f"c{i}"))
    return out


def symmetric_spec(rng, nfp):
    """a coil set with the field-period and stellarator symmetry"""
    out = []
    for g in range(int(rng.integers(1, 3))):
        v = rand_polygon(rng)
        w = float(rng.choice([1.0, 36.0, -2.5e3]))
        for k in range(nfp):
            c, s = np.cos(2 * np.pi * k / nfp), np.sin(2 * np.pi * k / nfp)
            M = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
            out.append((g + 1, "polygon", v @ M.T, w, f"a{g}{k}"))
            out.append((g + 1, "polygon", (v * [1, -1, -1])[::-1] @ M.T, w, f"b{g}{k}"))
    if rng.integers(2):
        z = float(rng.uniform(.2, .6))
        for q in (z, -z):
            out.append((9, "circle", (2.8, q), 12.0, "pf"))
    return out


def rand_params(rng, nfp=None, sym=None, norm=None):
    r0 = float(rng.uniform(1.3, 1.5))
    z0 = float(rng.uniform(-.3, -.1))
    sym = bool(rng.integers(2)) if sym is None else sym
    np_ = int(rng.integers(1, 8))
    return {"norm": bool(rng.integers(2)) if norm is None else norm, "sym": sym,
            "nfp": nfp or int(rng.integers(1, 6)),
            "r0": r0, "r1": r0 + float(rng.uniform(.1, .5)), "nr": int(rng.integers(2, 7)),
            "z0": z0, "z1": (-z0 if sym else z0 + float(rng.uniform(.1, .5))), "nz": int(rng.integers(2, 7)),
            "np": 2 * np_ if sym else np_}


def grid(p):
    r = p["r0"] + (p["r1"] - p["r0"]) / (p["nr"] - 1) * np.arange(p["nr"])
    z = p["z0"] + (p["z1"] - p["z0"]) / (p["nz"] - 1) * np.arange(p["nz"])
    f = 2 * np.pi / p["nfp"] / p["np"] * np.arange(p["np"])
    F, Z, R = np.meshgrid(f, z, r, indexing="ij")
    return F.ravel(), np.stack([R * np.cos(F), R * np.sin(F), Z], -1).reshape(-1, 3)


def expected_table(cfg, p, mirror):
    """(circuits, points, 3) cylindrical field, and a magnitude for tolerances.
    mirror: second half period from the first by the stellarator symmetry"""
    F, X = grid(p)
    n = p["np"], p["nz"], p["nr"]
    T, M = [], []
    for i, c in enumerate(cfg["circuits"]):
        s = 1.0
        if p["norm"]:
            s = 1 / (c["current"] * (1.0 if c["coils"][0]["w"] is None else c["coils"][0]["w"]))
        B, S = config_field(cfg, X, only=i)
        B, S = B * s, S * abs(s)
        cyl = np.stack([B[:, 0] * np.cos(F) + B[:, 1] * np.sin(F),
                        B[:, 1] * np.cos(F) - B[:, 0] * np.sin(F), B[:, 2]], -1).reshape(*n, 3)
        S = S.reshape(n)
        if mirror:
            for k in range(p["np"] // 2 + 1, p["np"]):
                cyl[k] = cyl[p["np"] - k, ::-1] * [-1, 1, 1]
                S[k] = S[p["np"] - k, ::-1]
        T.append(cyl.reshape(-1, 3))
        M.append(S.ravel())
    return np.array(T), np.array(M)


def compare(V, key, got, want, mag, near, ctx):
    """got (3 components) x circuits x points"""
    g = np.stack([np.asarray(x, float) for x in got], -1)
    if g.shape != want.shape:
        V.append({"key": key + "/shape", "msg": f"table of shape {g.shape[:2]}, expected {want.shape[:2]} (circuits, points)", "detail": ctx})
        return 0
    ok = np.broadcast_to((near > .03)[None, :, None], want.shape)
    if not np.isfinite(g[ok]).all():
        V.append({"key": key + "/nonfinite", "msg": "non-finite field away from every coil", "detail": ctx})
        return 0
    e = abs(g - want) / (mag[..., None] + 1e-300)
    e = np.where(ok, e, 0)
    if e.max() > RTOL:
        c, x, d = np.unravel_index(np.argmax(e), e.shape)
        V.append({"key": f"{key}/B_{'rpz'[d]}", "msg":
                  f"field component {'rpz'[d]} of circuit {c} at grid point {x} is {g[c, x, d]:.12g}, Biot-Savart gives {want[c, x, d]:.12g}",
                  "detail": ctx})
    return int(ok.sum())


# --------------------------------------------------------------- Python API
def cpp_params(p):
    from vmecpp import _free_boundary as fb
    return fb.MakegridParameters(
        normalize_by_currents=p["norm"], assume_stellarator_symmetry=p["sym"],
        number_of_field_periods=p["nfp"], r_grid_minimum=p["r0"], r_grid_maximum=p["r1"],
        number_of_r_grid_points=p["nr"], z_grid_minimum=p["z0"], z_grid_maximum=p["z1"],
        number_of_z_grid_points=p["nz"], number_of_phi_grid_points=p["np"])


def api(seed, n):
    from vmecpp import _free_boundary as fb
    V, N, states = [], 0, []
    for j in range(n):
        rng = np.random.default_rng([seed, j, 15])
        p = rand_params(rng)
        symset = p["sym"] and rng.integers(2)
        spec = symmetric_spec(rng, p["nfp"]) if symset else rand_spec(rng)
        text, cfg = coils_text(rng, spec, symset)
        ctx = {"seed": [seed, j], "params": p, "coils": text}
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            path = d + "/coils.x"
            with open(path, "w", newline="") as fh:
                fh.write(text)
            pp = d + "/params.json"
            mk = cpp_params(p)
            if rng.integers(2):
                with open(pp, "w") as fh:
                    fh.write(mk.model_dump_json())
                mk2 = fb.MakegridParameters.from_file(pp)
                if mk2 != mk:
                    V.append({"key": "params/json", "msg": f"grid parameters read from file differ: {mk2} vs {mk}", "detail": ctx})
                mk = mk2
            t = fb.MagneticFieldResponseTable.from_coils_file(path, mk)
        X = grid(p)[1]
        near = config_near(cfg, X)
        if p["sym"]:
            q = near.reshape(p["np"], p["nz"], p["nr"])
            for k in range(p["np"] // 2 + 1, p["np"]):
                q[k] = np.minimum(q[k], q[p["np"] - k, ::-1])
            near = q.ravel()
        # a symmetric coil set: the table must be the true field everywhere;
        # otherwise the second half is defined by the symmetry
        want, mag = expected_table(cfg, p, mirror=p["sym"] and not symset)
        N += compare(V, "table" + ("/sym" if p["sym"] else "") + ("/norm" if p["norm"] else ""),
                     (t.b_r, t.b_p, t.b_z), want, mag, near, ctx)
        if t.parameters != mk:
            V.append({"key": "table/parameters", "msg": f"parameters of the table {t.parameters} are not the requested {mk}", "detail": ctx})
        states.append(f"api/{'sym' if p['sym'] else 'full'}/{'norm' if p['norm'] else 'raw'}/{len(cfg['circuits'])}circuits/np{min(p['np'], 3)}/{'symset' if symset else 'gen'}")
        # conversion to the native object and back keeps every value
        cases = {"same": t}
        cases["params"] = t.model_copy(update={"parameters": mk.model_copy(update={"r_grid_maximum": p["r1"] + .5})})
        cases["swapped"] = t.model_copy(update={"b_r": t.b_p, "b_p": t.b_r})
        cases["scaled"] = t.model_copy(update={"b_z": t.b_z * 2})
        cases["copied"] = t.model_copy(deep=True)
        for nm, u in cases.items():
            c = u._to_cpp_magnetic_field_response_table()
            b = fb.MagneticFieldResponseTable._from_cpp_magnetic_field_response_table(c)
            N += 1
            if b.parameters != u.parameters:
                V.append({"key": f"convert/{nm}/parameters", "msg": f"table converted to the native object loses its parameters ({nm})", "detail": ctx})
            for k in ("b_r", "b_p", "b_z"):
                if not np.array_equal(getattr(b, k), getattr(u, k)):
                    V.append({"key": f"convert/{nm}/{k}", "msg": f"table converted to the native object has other values in {k} ({nm})", "detail": ctx})
        u = fb.MagneticFieldResponseTable.model_validate_json(t.model_dump_json())
        if u.parameters != t.parameters or any(not np.array_equal(getattr(u, k), getattr(t, k)) for k in ("b_r", "b_p", "b_z")):
            V.append({"key": "text", "msg": "table written as text and read back differs", "detail": ctx})
        # linearity in the windings x current column
        if j % 4 == 0 and not p["norm"]:
            f = -3.5
            text2, cfg2 = coils_text(np.random.default_rng([seed, j, 99]), [(c, k, dd, w * f, nn) for c, k, dd, w, nn in spec], symset)
            with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
                with open(d + "/c", "w") as fh:
                    fh.write(text2)
                t2 = fb.MagneticFieldResponseTable.from_coils_file(d + "/c", mk)
            w2, m2 = expected_table(cfg2, p, mirror=p["sym"] and not symset)
            N += compare(V, "linear", (t2.b_r, t2.b_p, t2.b_z), w2, m2, near, ctx)
    return {"viol": V, "evaluations": N, "counters": {"tables": n}, "states": states}


# ------------------------------------------------------------- C++ requests
def native(reqs):
    r = subprocess.run([os.environ["VP_MAGNETICS"]], input=json.dumps(reqs), capture_output=True, text=True, timeout=300)
    if r.returncode:
        return None, r.stderr[-2000:]
    return json.loads(r.stdout), None


def rand_config(rng, lines=True):
    out = []
    for _ in range(int(rng.integers(1, 4))):
        coils = []
        for _ in range(int(rng.integers(1, 4))):
            ks = []
            for _ in range(int(rng.integers(1, 3))):
                q = int(rng.integers(3))
                if q == 0 and lines:
                    o = rng.uniform(-1, 1, 3) + [0, 4, 0]
                    ks.append({"t": "line", "o": o.tolist(), "d": (rng.normal(size=3) * rng.choice([.1, 1, 30])).tolist()})
                elif q == 1:
                    nrm = np.eye(3)[int(rng.integers(3))] * rng.choice([1, -1]) if rng.integers(2) else rng.normal(size=3)
                    ks.append({"t": "circle", "c": rng.uniform(-.3, .3, 3).tolist(), "n": (nrm / np.linalg.norm(nrm)).tolist(),
                               "r": float(rng.uniform(.2, 3))})
                else:
                    ks.append({"t": "polygon", "v": rand_polygon(rng).tolist()})
            coils.append({"w": float(rng.choice([1.0, -2.0, 36.5])), "carriers": ks})
        out.append({"current": float(rng.choice([1.0, -3.0, 1.5e4, 0.0])), "coils": coils})
    if rng.integers(4) == 0:
        out[0]["coils"][0]["w"] = None
    return {"circuits": out}


def direct(seed, n):
    V, N, states = [], 0, []
    for j in range(n):
        rng = np.random.default_rng([seed, j, 16])
        ctx = {"seed": [seed, j]}

        def bad(key, msg):
            V.append({"key": key, "msg": msg, "detail": ctx})
        cfg = rand_config(rng)
        X = rng.uniform(-2, 2, (25, 3))
        near = config_near(cfg, X)
        X = X[near > .05]
        fill = rng.normal(size=X.shape)
        cl = {"circuits": [c for c in rand_config(rng, lines=False)["circuits"]]}
        for c in cl["circuits"]:
            c["current"] = c["current"] or 2.0
            for k in c["coils"]:
                k["w"] = k["w"] or 1.0
                k["carriers"] = [f for f in k["carriers"] if f["t"] == "polygon"] or [{"t": "polygon", "v": rand_polygon(rng).tolist()}]
        Y = rng.uniform(-2, 2, (6, 3))
        Y = Y[config_near(cl, Y) > .2]
        h = 1e-3
        st = np.concatenate([Y + s * h * np.eye(3)[a] for a in range(3) for s in (-2, -1, 1, 2)]) if len(Y) else np.zeros((0, 3))
        step = float(rng.uniform(-.2, .4))
        mv = {"circuits": [{"current": 1.0, "coils": [{"w": 2.0, "carriers": [
            {"t": "polygon", "v": rand_polygon(rng).tolist()},
            {"t": "circle", "c": [0, 0, float(rng.uniform(-1, 1))], "n": [0, 0, float(rng.choice([1., -1.]))], "r": 1.5}]}]}]}
        axis = [[0, 1.6, 0.0, 0.0, .05]] + [[m, float(rng.uniform(-.05, .05)), float(rng.uniform(-.05, .05)),
                                             float(rng.uniform(-.05, .05)), float(rng.uniform(-.05, .05))] for m in (1, 2, 5)]
        lk = {"nfp": 5, "circuits": [{"current": float(rng.uniform(-2, 2)), "coils": [{"w": 3.0, "carriers": [
            {"t": "line", "o": [.1, .05, 0], "d": [.05, .02, float(rng.choice([1., -2.]))]},
            {"t": "line", "o": [4, 0, 0], "d": [0, 0, 1]}]}]}]}
        sign = np.sign(lk["circuits"][0]["coils"][0]["carriers"][0]["d"][2])
        text, pc = coils_text(rng, rand_spec(rng))
        ncur = [float(x) for x in rng.normal(size=len(cfg["circuits"]))]
        curve = [[int(m)] + [float(x) for x in rng.normal(size=4) * 10.0 ** rng.integers(-9, 3)] for m in range(-2, 4)]
        surf = [[m, nn] + [float(x) for x in rng.normal(size=4) * 10.0 ** rng.integers(-9, 3)] for m in range(3) for nn in range(-2, 3)]
        filled = {"circuits": [{**c, "current": c["current"] or 1.0, "coils": [{**k, "w": 1.0 if k["w"] is None else k["w"]} for k in c["coils"]]} for c in cfg["circuits"]]}
        reqs = [{"op": "field", "config": cfg, "points": X.tolist(), "fill": fill.tolist()},
                {"op": "potential", "config": cl, "points": st.tolist(), "fill": np.zeros_like(st).tolist()},
                {"op": "parse", "text": text},
                {"op": "migrate", "config": filled},
                {"op": "move", "config": mv, "step": step},
                {"op": "currents", "config": cfg, "currents": ncur},
                {"op": "linking", "config": lk, "axis": axis},
                {"op": "curve", "coefs": curve},
                {"op": "surface", "coefs": surf}]
        r, err = native(reqs)
        if r is None:
            bad("direct/crash", "the coil library ended the process on a valid request: " + err[-300:])
            continue
        for q, a in zip(reqs, r):
            if isinstance(a, dict) and ("error" in a or "exception" in a):
                bad(f"direct/{q['op']}/refused", f"valid request {q['op']} refused: {a}")
        if V:
            continue
        # field
        B, S = config_field(cfg, X)
        g = np.array(r[0]["b"]).reshape(-1, 3) - fill
        e = abs(g - B) / (S[:, None] + 1e-300) - 1e-14 * abs(fill) / (S[:, None] + 1e-300)
        e = np.where(S[:, None] == 0, abs(g - B) * 1e6, e)
        N += B.size
        if len(X) and e.max() > RTOL:
            i = np.unravel_index(np.argmax(e), e.shape)
            bad("direct/field", f"field of the configuration at {X[i[0]]} is {g[i[0]]}, Biot-Savart gives {B[i[0]]}")
        states += [f"direct/{f['t']}" for c in cfg["circuits"] for k in c["coils"] for f in k["carriers"]]
        # curl of the vector potential of closed polygons is the field
        if len(Y):
            A = np.array(r[1]["b"]).reshape(3, 4, len(Y), 3)
            D = (A[:, 0] - 8 * A[:, 1] + 8 * A[:, 2] - A[:, 3]) / (12 * h)
            curl = np.stack([D[1][:, 2] - D[2][:, 1], D[2][:, 0] - D[0][:, 2], D[0][:, 1] - D[1][:, 0]], -1)
            B, S = config_field(cl, Y)
            N += B.size
            if (abs(curl - B) / S[:, None]).max() > 1e-5:
                bad("direct/potential", "curl of the tabulated vector potential of closed polygons is not their field")
        # parsing is exact
        N += 1
        got = r[2]
        if got["circuits"] != pc["circuits"]:
            bad("parse", "coil file parsed to " + diff(got["circuits"], pc["circuits"]))
        # moving windings into the current keeps the field and normalises
        m = r[3]
        for c, c0 in zip(m["circuits"], filled["circuits"]):
            w0 = c0["coils"][0]["w"]
            N += 1
            if abs(c["current"] - c0["current"] * w0) > 1e-12 * abs(c["current"]) or \
                    any(abs(k["w"] * c["current"] - k0["w"] * c0["current"]) > 1e-12 * abs(k0["w"] * c0["current"])
                        for k, k0 in zip(c["coils"], c0["coils"])):
                bad("migrate", f"windings moved into the current change ampere-turns: {c0['current']} x {[k['w'] for k in c0['coils']]} -> {c['current']} x {[k['w'] for k in c['coils']]}")
            if [k["carriers"] for k in c["coils"]] != [k["carriers"] for k in strip(c0)]:
                pass
        # radial move
        v0 = np.array(mv["circuits"][0]["coils"][0]["carriers"][0]["v"])
        k1 = r[4]["circuits"][0]["coils"][0]["carriers"]
        rr = np.hypot(v0[:, 0], v0[:, 1])
        want = np.stack([v0[:, 0] * (rr + step) / rr, v0[:, 1] * (rr + step) / rr, v0[:, 2]], 1)
        N += want.size
        if abs(np.array(k1[0]["v"]) - want).max() > 1e-12 or abs(k1[1]["r"] - 1.5 - step) > 1e-14:
            bad("move", "radial displacement of a coil set is not the requested one")
        # currents
        N += 1
        if r[5]["got"] != ncur or [c["current"] for c in r[5]["circuits"]] != ncur:
            bad("currents", f"circuit currents set to {ncur} read back as {r[5]['got']}")
        # Ampere's law
        N += 1
        I = lk["circuits"][0]["current"] * 3.0 * sign
        if abs(r[6]["i"] - I) > 1e-6 * abs(I):
            bad("linking", f"current linked by the axis is {r[6]['i']}, the wire through it carries {I}")
        # text forms
        for q, a, nm in ((curve, r[7], "curve"), (surf, r[8], "surface")):
            N += len(q)
            k = 1 if nm == "curve" else 2
            Q, G = np.array(q), np.array(a["coefs"])
            if G.shape != Q.shape or (G[:, :k] != Q[:, :k]).any() or (abs(G[:, k:] - Q[:, k:]) > 1e-15 * abs(Q[:, k:])).any():
                bad("csv/" + nm, f"{nm} coefficients written and read back differ")
            elif not np.array_equal(np.array(a["lists"]).T, G[:, k:]) or not np.array_equal(np.array(a["modes"]).reshape(k, -1).T, Q[:, :k]):
                bad("csv/" + nm + "/lists", f"coefficient lists of a {nm} are not its coefficients")
    return {"viol": V, "evaluations": N, "counters": {"direct": n}, "states": states}


def strip(c):
    return c["coils"]


def diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} circuits instead of {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x["current"] != y["current"]:
            return f"circuit {i} current {x['current']} instead of {y['current']}"
        if len(x["coils"]) != len(y["coils"]):
            return f"circuit {i} has {len(x['coils'])} coils instead of {len(y['coils'])}"
        for j, (p, q) in enumerate(zip(x["coils"], y["coils"])):
            if p != q:
                return f"circuit {i} coil {j}: {str(p)[:300]} instead of {str(q)[:300]}"
    return "something else"


def mgrid(seed, n):
    """grid files: written values, dimensions, mode and currents"""
    V, N, states = [], 0, []
    for j in range(n):
        rng = np.random.default_rng([seed, j, 17])
        ctx = {"seed": [seed, j]}

        def bad(key, msg):
            V.append({"key": key, "msg": msg, "detail": ctx})
        p = rand_params(rng)
        text, cfg = coils_text(rng, rand_spec(rng))
        for c in cfg["circuits"]:
            c["current"] = float(rng.choice([1.0, -3.0, 250.0]))
        raw = [float(x) for x in rng.normal(size=len(cfg["circuits"]))]
        wa = bool(rng.integers(2))
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            path = d + "/mgrid.nc"
            r, err = native([{"op": "mgrid", "config": cfg, "params": p, "a": wa, "path": path, "raw": raw}])
            if r is None or "error" in r[0] or "exception" in r[0]:
                bad("mgrid/refused", f"valid grid request failed: {err or r}")
                continue
            r = r[0]
            f = nc3.read(path)
        near = config_near(cfg, grid(p)[1])
        q = near.reshape(p["np"], p["nz"], p["nr"])
        if p["sym"]:
            for k in range(p["np"] // 2 + 1, p["np"]):
                q[k] = np.minimum(q[k], q[p["np"] - k, ::-1])
        want, mag = expected_table(cfg, p, p["sym"])
        N += compare(V, "mgrid/table", (r["r"], r["p"], r["z"]), want, mag, q.ravel(), ctx)
        if wa:
            # the potential tables against the potential of each circuit alone
            F, X = grid(p)
            Z0 = np.zeros_like(X).tolist()
            ra, err = native([{"op": "potential", "config": {**cfg, "circuits": [c]}, "points": X.tolist(), "fill": Z0} for c in cfg["circuits"]])
            if ra is None or any("b" not in x for x in ra):
                bad("mgrid/potential", f"potential of a circuit failed: {err or ra}"[:300])
            else:
                for i, c in enumerate(cfg["circuits"]):
                    sc = 1.0
                    if p["norm"]:
                        sc = 1 / (c["current"] * (1.0 if c["coils"][0]["w"] is None else c["coils"][0]["w"]))
                    A = sc * np.array(ra[i]["b"]).reshape(-1, 3)
                    cyl = np.stack([A[:, 0] * np.cos(F) + A[:, 1] * np.sin(F),
                                    A[:, 1] * np.cos(F) - A[:, 0] * np.sin(F), A[:, 2]], -1).reshape(p["np"], p["nz"], p["nr"], 3)
                    if p["sym"]:
                        for k in range(p["np"] // 2 + 1, p["np"]):
                            cyl[k] = cyl[p["np"] - k, ::-1] * [-1, 1, 1]
                    g = np.stack([np.asarray(r[k][i], float) for k in ("ar", "ap", "az")], -1)
                    w = cyl.reshape(-1, 3)
                    ok = (q.ravel() > .03) & np.isfinite(w).all(1)
                    N += 3 * int(ok.sum())
                    e = np.abs(g - w)[ok] / (np.abs(w[ok]).max() + 1e-300) if ok.any() else np.zeros((1, 3))
                    if not e.max() < 1e-9:
                        bad("mgrid/potential", f"tabulated vector potential of circuit {i} differs by {e.max():.1e} from the potential of its filaments")
        val = {k: v[2] for k, v in f["vars"].items()}
        for k, w in (("ir", p["nr"]), ("jz", p["nz"]), ("kp", p["np"]), ("nfp", p["nfp"]), ("nextcur", len(raw)),
                     ("rmin", p["r0"]), ("rmax", p["r1"]), ("zmin", p["z0"]), ("zmax", p["z1"])):
            N += 1
            if k not in val or float(np.ravel(val[k])[0]) != float(w):
                bad("mgrid/" + k, f"grid file has {k} = {val.get(k)}, expected {w}")
        m = val.get("mgrid_mode")
        m = bytes(np.ravel(m)).decode() if m is not None else None
        if m != ("S" if p["norm"] else "R"):
            bad("mgrid/mode", f"grid file mode is {m} with normalisation {p['norm']}")
        if "raw_coil_cur" not in val or list(np.ravel(val["raw_coil_cur"])) != raw:
            bad("mgrid/raw_coil_cur", f"currents stored as {val.get('raw_coil_cur')}, given {raw}")
        names = ["r", "p", "z"] + (["ar", "ap", "az"] if wa else [])
        for c in range(len(raw)):
            for nm in names:
                k = (f"b{nm}" if len(nm) == 1 else nm) + f"_{c + 1:03d}"
                N += 1
                if k not in val or val[k].shape != (p["np"], p["nz"], p["nr"]) or not np.array_equal(val[k].ravel(), np.array(r[nm][c])):
                    bad("mgrid/" + k[:2], f"grid file variable {k} differs from the computed table")
        states.append(f"mgrid/{'sym' if p['sym'] else 'full'}/{'S' if p['norm'] else 'R'}/{'a' if wa else 'b'}")
    return {"viol": V, "evaluations": N, "counters": {"mgrid": n}, "states": states}


BAD = ["", "periods\nbegin filament\nend\n", "begin filament\n1 2 3 4\n", "begin filament\n1 2 3\nend\n",
       "begin filament\nmirror YES\nend\n",
       "begin filament\n1 0 0 5\n0 1 0 6\n1 0 0 0 1 a\nend\n"[:0] or
       "begin filament\n1 0 0 5\n0 1 0 6\n0 0 1 5\n1 0 0 0 1 a\nend\n",
       "begin filament\n1 0 0 5\n0 x 0 5\n1 0 0 0 1 a\nend\n",
       "begin filament\n1 0 0 5\n0 1.0D+01 0 5\n1 0 0 0 1 a\nend\n",
       "begin filament\n1 0 0 5\n0 1 0 5\n1 0 0 0 q a\nend\n",
       "begin filament\n1 0 0 5\n0 1 0 5\n1 0 0 0 1.5 a\nend\n",
       "begin filament\n1 0 0 5\n0 1e999 0 5\n1 0 0 0 1 a\nend\n"]


def refuse():
    """coil files that cannot be read exactly are refused"""
    from vmecpp.cpp import _vmecpp
    V = []
    for i, t in enumerate(BAD[3:]):
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            with open(d + "/c", "w") as fh:
                fh.write(t)
            try:
                _vmecpp.MagneticConfiguration.from_file(d + "/c")
                V.append({"key": f"refuse/{i}", "msg": f"damaged coil file accepted: {t!r}"})
            except Exception:
                pass
    return {"viol": V, "evaluations": len(BAD) - 3, "states": ["refuse"]}


def main(ctx):
    have = True
    try:
        outs = ctx.package(targets=("pymod", "h:magnetics"))
    except Exception as e:     # the library's C++ interface changed: API level only
        have = False
        ctx.package()
        ctx.count("harness_unavailable")
        print("note: C++ request harness does not build:", str(e)[:200])
    env = ctx.env()
    if have:
        env["VP_MAGNETICS"] = outs[1]
    k = 10 if ctx.thorough else 1
    cases = [{"fn": "refuse", "tag": "refuse"}]
    cases += [{"fn": "api", "tag": f"api/{i}", "seed": ctx.seed * 1000 + i, "n": 12} for i in range(24 * k)]
    if have:
        cases += [{"fn": "direct", "tag": f"direct/{i}", "seed": ctx.seed * 1000 + i, "n": 10} for i in range(24 * k)]
        cases += [{"fn": "mgrid", "tag": f"mgrid/{i}", "seed": ctx.seed * 1000 + i, "n": 8} for i in range(16 * k)]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=env, on_timeout="inconclusive", timeout=300)
    return ctx.finish("exploration",
                      "every component of every circuit at every grid point (farther than 3 cm from a conductor) within 1e-8 of the independent Biot-Savart value; parsing and files exact",
                      ["the conductor-field kernels come from a stand-in for the external abscab library, so only the repository's own use of them is judged",
                       "the sign of the vector potential of circular loops is not judged (the code follows MAKEGRID)"],
                      min_evaluations=20000, min_states=15)
