"""C16: free-boundary results depend only on the external field, and satisfy
the interface conditions.

Monitors: (a) runs on equivalent descriptions of one external field (table,
grid file, scaled form, combined/split/permuted/idle circuits, larger grid)
must report the same equilibrium; (b) the virtual-casing principle: the coil
field plus the field of the reported edge current sheet vanishes inside the
plasma (an independent Biot-Savart evaluation, no vacuum solver involved);
(c) pressure balance across the surface; (d) update interval of the vacuum
solution; (e) a current-free plasma without pressure carries the coil field."""
import copy
import os
import tempfile

import numpy as np

from checks import c14, c15
from vplib import casing, freeb, inputs as I, outs, shape, work

VERIF = freeb.VERIF


def free_input(spec):
    d = work.canonical(spec["canon"])
    rng = np.random.default_rng([spec["seed"], spec["i"], 160])
    if spec["i"] == 0:
        return d, rng
    d["extcur"] = [x * float(rng.uniform(.96, 1.04)) for x in d["extcur"]]
    d["phiedge"] *= float(rng.uniform(.85, 1.05))
    if d.get("curtor"):
        d["curtor"] *= float(rng.choice([1, .5, .2, 1.1]))
    d["pres_scale"] = d.get("pres_scale", 1.0) * float(rng.choice([1, .3, 2.0]))
    d["nvacskip"] = int(rng.choice([1, 2, 4, 6, 9]))
    if rng.integers(2):
        d = I.single(d, int(rng.choice([7, 9, 13])), d["ftol_array"][-1])
    if rng.integers(3) == 0:
        d = I.multi(d, [5, 11], [1e-7, d["ftol_array"][-1]], 4000)
    if d["ntor"] and rng.integers(2):
        d["ntheta"] = int(rng.choice([0, 14, 18, 20]))
    return d, rng


def tab(d, **kw):
    name, k = d["_coils"]
    return freeb.table(name, **{**k, **kw})


def run(d, t=None, must=False, threads=1, **kw):
    return work.solve(d, must, threads, **({"magnetic_field": t} if t is not None else {}), **kw)


def write_mgrid(path, t, scale, mode, fmt="NETCDF3_CLASSIC"):
    """independent writer of a grid file; scale multiplies the fields"""
    import netCDF4
    p = t.parameters
    n = (p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points)
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        for k, v in (("stringsize", 30), ("external_coil_groups", len(t.b_r)), ("dim_00001", 1),
                     ("external_coils", len(t.b_r)), ("rad", n[2]), ("zee", n[1]), ("phi", n[0])):
            f.createDimension(k, v)
        for k, v in (("ir", n[2]), ("jz", n[1]), ("kp", n[0]), ("nfp", p.number_of_field_periods), ("nextcur", len(t.b_r))):
            f.createVariable(k, "i4", ())[...] = v
        for k, v in (("rmin", p.r_grid_minimum), ("rmax", p.r_grid_maximum), ("zmin", p.z_grid_minimum), ("zmax", p.z_grid_maximum)):
            f.createVariable(k, "f8", ())[...] = v
        f.createVariable("mgrid_mode", "S1", ("dim_00001",))[...] = np.array([mode], "S1")
        f.createVariable("raw_coil_cur", "f8", ("external_coils",))[...] = np.asarray(scale, float)
        for i in range(len(t.b_r)):
            for k, a in (("br", t.b_r), ("bp", t.b_p), ("bz", t.b_z)):
                f.createVariable(f"{k}_{i + 1:03d}", "f8", ("phi", "zee", "rad"))[...] = np.asarray(a[i]).reshape(n) * scale[i]


def remake(t, rows):
    """table whose circuits are the given combinations of those of t"""
    M = np.array(rows, float)
    return t.model_copy(update={k: np.ascontiguousarray(M @ np.asarray(getattr(t, k))) for k in ("b_r", "b_p", "b_z")})


def superset(d, t):
    """the same grid nodes plus a margin of ten cells on every side"""
    p = t.parameters
    m = 4
    hr = (p.r_grid_maximum - p.r_grid_minimum) / (p.number_of_r_grid_points - 1)
    hz = (p.z_grid_maximum - p.z_grid_minimum) / (p.number_of_z_grid_points - 1)
    name, k = d["_coils"]
    return freeb.table(name, **{**k, "nr": p.number_of_r_grid_points + 2 * m,
                                "r_grid_minimum": p.r_grid_minimum - m * hr, "r_grid_maximum": p.r_grid_maximum + m * hr,
                                "z_grid_minimum": p.z_grid_minimum - m * hz, "z_grid_maximum": p.z_grid_maximum + m * hz})


def tight(t, *runs):
    """the table cut down to the cells that hold the boundary of these runs, with a tenth of a cell to spare"""
    p = t.parameters
    n = p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points
    X = np.concatenate([casing.surface(o.wout, nu=96, nv=48)[0] for o in runs])
    hr = (p.r_grid_maximum - p.r_grid_minimum) / (n[2] - 1)
    hz = (p.z_grid_maximum - p.z_grid_minimum) / (n[1] - 1)
    cut = []
    for x, lo, h, nn in ((np.hypot(X[:, 0], X[:, 1]), p.r_grid_minimum, hr, n[2]), (X[:, 2], p.z_grid_minimum, hz, n[1])):
        cut += [max(int(np.floor((x.min() - lo) / h - .1)), 0), min(int(np.ceil((x.max() - lo) / h + .1)), nn - 1)]
    r0, r1, z0, z1 = cut
    q = p.model_copy(deep=True)
    q.number_of_r_grid_points, q.number_of_z_grid_points = r1 - r0 + 1, z1 - z0 + 1
    q.r_grid_maximum = p.r_grid_minimum + r1 * hr
    q.r_grid_minimum = p.r_grid_minimum + r0 * hr
    q.z_grid_maximum = p.z_grid_minimum + z1 * hz
    q.z_grid_minimum = p.z_grid_minimum + z0 * hz
    f = lambda a: np.ascontiguousarray(np.asarray(a).reshape(len(a), *n)[:, :, z0:z1 + 1, r0:r1 + 1]).reshape(len(a), -1)
    return t.model_copy(update={"parameters": q, "b_r": f(t.b_r), "b_p": f(t.b_p), "b_z": f(t.b_z)})


def equal(d, t, must, threads=1, **kw):
    """a run equivalent to one that converged"""
    try:
        return run(d, t, must, threads, **kw)
    except work.Skip as e:
        if "did not converge" in str(e):
            raise
        raise work.Unexpected(f"the same external field described differently is refused: {e}")


SKIP = ("mgrid_mode", "mgrid_file", "extcur", "nextcur", "curlabel", "input")


def equiv(spec):
    d, rng = free_input(spec)
    t = tab(d)
    must = spec["i"] == 0
    try:
        base = run(d, t, must)
    except work.Skip as e:
        return {"skip": str(e)}
    V, N, worst = [], 0, {}
    ext = [float(x) for x in d["extcur"]]
    nc = len(ext)

    def bad(key, msg):
        V.append({"key": key, "msg": msg, "detail": {"spec": spec}})

    def same(key, other, tol, expect=None, mode=None):
        nonlocal N
        p = outs.diff(base, other, names=set(outs.GEOM))
        N += len(p)
        k = max(p, key=p.get)
        worst[key] = max(worst.get(key, 0), p[k])
        if p[k] > tol:
            bad("equiv/" + key, f"{key}: {k} differs by {p[k]:.2e} from the run on the plain table (limit {tol})")
        if int(other.wout.ier_flag) != int(base.wout.ier_flag):
            bad("equiv/" + key + "/status", f"{key}: status {other.wout.ier_flag} vs {base.wout.ier_flag}")
        w = other.wout
        if expect is not None:
            N += 1
            if [float(x) for x in np.ravel(w.extcur)][:len(expect)] != expect or int(w.nextcur) != len(expect):
                bad("report/extcur", f"{key}: reported currents {list(np.ravel(w.extcur))} ({w.nextcur}), used {expect}")
        if mode is not None and str(w.mgrid_mode).strip() != mode:
            bad("report/mgrid_mode", f"{key}: reported grid mode {w.mgrid_mode!r}, used {mode!r}")
        return p

    R = ("R", "S")
    same("table", base, 0.0, ext, "S" if t.parameters.normalize_by_currents else "R")
    # grid file with the very same numbers: bit for bit
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as tmp:
        f = tmp + "/mgrid.nc"
        fmt = str(rng.choice(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4"]))
        write_mgrid(f, t, [1.0] * nc, "R", fmt)
        e = copy.deepcopy(d)
        e.pop("_coils")
        e["mgrid_file"] = f
        o = equal(e, None, must)
        same("file", o, 0.0, ext, "R")
        N += 1
        k = outs.identical(base.wout, o.wout, skip=SKIP)
        if k:
            bad("equiv/file/bitwise", f"outputs differ between grid file and table with the same numbers: {k[:6]}")
        # the same field tabulated for other reference currents
        s = [float(rng.choice([.5, -4.0, 1e3])) for _ in ext]
        write_mgrid(f, t, s, "S", fmt)
        e["extcur"] = [x / q for x, q in zip(ext, s)]
        same("file_scaled", equal(e, None, must), 1e-6, e["extcur"], "S")
        # the circuits in another order, one of them split, one idle
    e = copy.deepcopy(d)
    if nc > 1:
        perm = [int(i) for i in rng.permutation(nc)]
        if perm == list(range(nc)):
            perm = perm[::-1]
        e["extcur"] = [ext[i] for i in perm]
        same("permuted", equal(e, remake(t, np.eye(nc)[perm]), must), 1e-6, e["extcur"])
    e["extcur"] = [1.0]
    same("combined", equal(e, remake(t, [ext]), must), 1e-6, [1.0])
    a = float(rng.uniform(.2, .8))
    e["extcur"] = [ext[0] * a] + ext[1:] + [ext[0] * (1 - a), 0.0, 123.0]
    rows = np.concatenate([np.eye(nc), np.eye(nc)[:1], np.eye(nc)[:1], np.zeros((1, nc))])
    order = [len(rows) - 2, *range(len(rows) - 2), len(rows) - 1] if must else [int(i) for i in rng.permutation(len(rows))]
    e["extcur"] = [e["extcur"][i] for i in order]
    same("split", equal(e, remake(t, rows[order]), must), 1e-6, e["extcur"])
    e["extcur"] = ext
    same("superset", equal(e, superset(d, t), must), 1e-6)
    # continued from the result, on the smallest part of the grid that holds the plasma
    h = {**e, "ns_array": e["ns_array"][-1:], "ftol_array": e["ftol_array"][-1:], "niter_array": e["niter_array"][-1:]}
    try:
        o = run(h, t, False, restart_from=base)
    except work.Skip:
        o = None
    if o is not None:
        c = equal(h, tight(t, base, o), False, restart_from=base)
        p = outs.diff(o, c, names=set(outs.GEOM))
        N += len(p)
        k = max(p, key=p.get)
        worst["tight"] = p[k]
        if p[k] > 1e-6:
            bad("equiv/tight", f"continued on a table cut down to the plasma: {k} differs by {p[k]:.2e} from the run on the whole table")
    # the normalised form of the same coil set
    tn = tab(d, norm=True)
    name = d["_coils"][0]
    ref = [c["coils"][0]["w"] for c in casing.coils(f"{VERIF}/data/coils.{name}", ext)["circuits"]]
    e["extcur"] = [x * w for x, w in zip(ext, ref)]
    same("normalised", equal(e, tn, must), 1e-6, e["extcur"], "S")
    # number of worker threads for the vacuum part
    same("threads", equal(d, t, must, threads=4), 1e-6)
    return {"viol": V, "evaluations": N, "states": ["equiv/" + work.describe(d)], "counters": {"equiv": 1}, "sample": {"equiv": worst, "spec": spec}}


# limits measured on the unchanged tree (see DESIGN.md); a sign, factor or
# index error in the vacuum solution is at least an order of magnitude above
LIM = {"solovev": dict(total=2e-3, pol=3e-2, delbsq=5e-3), "cth_like": dict(total=1.5e-2, pol=6e-2, delbsq=2e-2)}


def interface(spec):
    d, rng = free_input(spec)
    t = tab(d)
    turn = 0.0
    if d.get("lasym"):
        # turned about the vertical axis the (symmetric) coils give a problem
        # in which both parities of every quantity are present
        d, tr = c14.rotate(d, rng)
        turn, t = tr.p0, c14.table_for(d, d.pop("_table"))
    must = spec["i"] == 0
    try:
        o = run(d, t, must)
    except work.Skip as e:
        return {"skip": str(e)}
    w = o.wout
    V = []
    X, Nn, B = casing.surface(w)
    P = casing.interior(w, rng, 24)
    name = d["_coils"][0]
    cfg = casing.coils(f"{VERIF}/data/coils.{name}", d["extcur"])
    co, si = np.cos(turn), np.sin(turn)
    M = np.array([[co, -si, 0], [si, co, 0], [0, 0, 1.0]])
    Bc, _ = c15.config_field(cfg, P @ M.T)
    Bc = Bc @ M
    Bs = casing.casing_field(X, Nn, B, P)
    ph = np.arctan2(P[:, 1], P[:, 0])
    et = np.stack([-np.sin(ph), np.cos(ph), 0 * ph], 1)
    res = Bc + Bs
    pol = res - np.einsum("ij,ij->i", res, et)[:, None] * et
    bp = Bc - np.einsum("ij,ij->i", Bc, et)[:, None] * et
    tot = float(np.linalg.norm(res, axis=1).max() / np.linalg.norm(Bc, axis=1).max())
    # poloidal residual against the poloidal field the plasma current makes
    bedge = B - np.einsum("ij,ij->i", B, np.stack([-X[:, 1], X[:, 0], 0 * X[:, 0]], 1) / np.hypot(X[:, 0], X[:, 1])[:, None])[:, None] * \
        np.stack([-X[:, 1], X[:, 0], 0 * X[:, 0]], 1) / np.hypot(X[:, 0], X[:, 1])[:, None]
    scale = float(np.sqrt((bedge ** 2).sum(1).mean()))
    pr = float(np.linalg.norm(pol, axis=1).max() / scale)
    db = float(np.ravel(w.delbsq)[-1])
    L = LIM[name]
    for k, v, lim in (("total", tot, L["total"]), ("poloidal", pr, L["pol"]), ("delbsq", db, L["delbsq"])):
        if not v < lim:
            V.append({"key": f"interface/{k}", "msg": f"{k} residual at the plasma-vacuum interface is {v:.2e} (limit {lim})", "detail": {"spec": spec}})
    # independent pressure balance: |B|^2 + 2 mu0 p just inside equals the
    # squared exterior field, here represented by the casing identity above;
    # the reported edge pressure must vanish for that
    return {"viol": V, "evaluations": 3 * len(P) + 1, "states": ["interface/" + work.describe(d)],
            "counters": {"interface": 1}, "sample": {"total": tot, "pol": pr, "delbsq": db, "spec": spec}}


def interval(spec):
    """the converged state does not depend on how often the vacuum response is
    recomputed"""
    d, rng = free_input(spec)
    t = tab(d)
    if d["_coils"][0] == "cth_like":
        d["ftol_array"] = [min(x, 1e-13) for x in d["ftol_array"]]
    outs_, V = [], []
    for nv in (1, 3, 7, 15):
        e = copy.deepcopy(d)
        e["nvacskip"] = nv
        try:
            outs_.append((nv, run(e, t)))
        except work.Skip:
            pass
    if len(outs_) < 2:
        return {"skip": "not converged"}
    worst = 0.0
    for nv, o in outs_[1:]:
        p = shape.physics(outs_[0][1], o)
        k = max(p, key=p.get)
        worst = max(worst, p[k])
        if p[k] > 2e-3:
            V.append({"key": "interval", "msg": f"vacuum update interval {nv} vs {outs_[0][0]}: {k} differs by {p[k]:.2e}", "detail": {"spec": spec}})
    return {"viol": V, "evaluations": 12 * len(outs_), "states": ["interval/" + work.describe(d)], "counters": {"interval": 1},
            "sample": {"interval": worst, "spec": spec}}


def vacuum(spec):
    """no pressure, no current: with either method the edge field is the coil field"""
    d, rng = free_input(spec)
    if d["_coils"][0] != "cth_like":
        return {"skip": "axisymmetric"}
    d["pres_scale"], d["curtor"] = 0.0, 0.0
    t = tab(d)
    V, res, got = [], {}, {}
    for m in ("nestor", "only_coils"):
        e = copy.deepcopy(d)
        e["free_boundary_method"] = m
        try:
            o = run(e, t)
        except work.Skip as ex:
            if spec["i"] == 0:
                raise work.Unexpected(f"vacuum case {m}: {ex}")
            continue
        X, _, B = casing.surface(o.wout, nu=24, nv=12)
        cfg = casing.coils(f"{VERIF}/data/coils.{d['_coils'][0]}", d["extcur"])
        Bc, _ = c15.config_field(cfg, X)
        # direction of the field is fixed by the sign of the flux
        s = np.sign(np.sum(B * Bc))
        r = float(np.sqrt(((s * B - Bc) ** 2).sum(1).mean() / (Bc ** 2).sum(1).mean()))
        res[m] = r
        got[m] = o
        if not r < .06:
            V.append({"key": f"vacuum/{m}", "msg": f"edge field of a vacuum configuration differs from the coil field by {r:.2e} ({m})", "detail": {"spec": spec}})
    if len(got) == 2:
        p = shape.physics(got["nestor"], got["only_coils"])
        res["physics"] = {k: p[k] for k in ("volume", "surfaces", "wb")}
        for k, lim in (("volume", .03), ("wb", .03), ("surfaces", .06)):
            if p[k] > lim:
                V.append({"key": "vacuum/methods", "msg": f"vacuum configuration: {k} differs by {p[k]:.2e} between vacuum methods", "detail": {"spec": spec}})
    if not got:
        return {"skip": "not converged"}
    return {"viol": V, "evaluations": len(got) * 100, "states": ["vacuum/" + work.describe(d)], "counters": {"vacuum": 1},
            "sample": {**res, "spec": spec}}


def refine(spec):
    """finer tabulation of the same coils changes the result only by the
    interpolation error"""
    d, rng = free_input(spec)
    try:
        a = run(d, tab(d))
        n = 2 * tab(d).parameters.number_of_r_grid_points - 1
        b = run(d, tab(d, nr=n))
        c = run(d, tab(d, nr=2 * n - 1))
    except work.Skip as e:
        return {"skip": str(e)}
    p, q = shape.physics(a, c), shape.physics(b, c)
    V = []
    for k in ("volume", "wb", "surfaces", "axis"):
        # (the shape also follows the poloidal-angle gauge, see shape.limits)
        if p[k] > 2e-2 or q[k] > (1.5e-2 if k in ("surfaces", "axis") else 5e-3):
            V.append({"key": "refine", "msg": f"{k} changes by {p[k]:.2e}, {q[k]:.2e} under refinement of the field table", "detail": {"spec": spec}})
    return {"viol": V, "evaluations": 8, "states": ["refine/" + work.describe(d)], "counters": {"refine": 1},
            "sample": {"refine": [p["surfaces"], q["surfaces"]], "spec": spec}}


def frames(canon, names, seed, i):
    """the same external field in a turned, shifted, rescaled or reversed frame,
    or treated without using its symmetry: the transformed result"""
    r = c14.symmetry({"canon": canon}, names, seed, i)
    for v in r.get("viol", []):
        v["key"] = "frames/" + v["key"]
    r["states"] = ["frames/" + s for s in r.get("states", [])]
    return r


def main(ctx):
    ctx.package()
    n = 40 if ctx.thorough else 5
    S = [{"canon": c, "seed": ctx.seed, "i": i} for c in work.FREE for i in range(n)]
    cases = [{"fn": f, "tag": f"{f}/{s['canon']}/{s['i']}", "spec": s} for s in S for f in ("equiv", "interface")]
    cases += [{"fn": f, "tag": f"{f}/{s['canon']}/{s['i']}", "spec": s} for s in S if s["i"] < max(2, n // 3)
              for f in ("interval", "vacuum", "refine")]
    for i in range(4 if ctx.thorough else 1):
        cases += [{"fn": "frames", "tag": f"frames/{c}/{i}", "canon": c, "names": nm, "seed": ctx.seed, "i": i}
                  for c in work.FREE for nm in (["flux", "scale"], ["rotate", "as_asym", "vshift"])]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=400)
    return ctx.finish("exploration",
                      "identical external fields give identical equilibria (bitwise for equal numbers, 1e-6 otherwise); casing, pressure-balance, interval, vacuum and refinement residuals below limits set from the unchanged tree",
                      ["interface conditions are judged at discretisation level: an error that changes the vacuum solution by less than about a percent of the poloidal field passes"],
                      min_evaluations=400, min_states=12)
