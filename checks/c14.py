"""C14: symmetries and scalings of ideal MHD.

Metamorphic monitor: every input is solved as given and after an exact
transformation of the problem; the complete reported state (geometry, field,
currents, profiles, scalars) of the second run must be the transformed state
of the first.  Tables are compared as functions of position, at random angles,
so that no convention about the coefficient layout enters."""
import copy
import os
import subprocess
import sys

import numpy as np

from vplib import inputs as I, shape, work


# ---------------------------------------------------------------- transforms
# Each returns (new input, T) with T the effect on the solution:
#   theta = a theta' + t0, phi = b phi' + p0   (arguments of the original)
#   sf sign of the flux, L length, B field strength, zf sign of Z, dz shift
class T:
    def __init__(self, a=1, b=1, t0=0.0, p0=0.0, sf=1, L=1.0, B=1.0, zf=1, dz=0.0, exact=True):
        self.a, self.b, self.t0, self.p0, self.sf, self.L, self.B, self.zf, self.dz = a, b, t0, p0, sf, L, B, zf, dz
        self.exact = exact


def neg(v):
    return [-float(x) for x in v]


COEF = ("rbc", "zbs", "rbs", "zbc")
AXIS = ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c")


def flip_drive(e, current=True, iota=True):
    if e.get("ncurr"):
        if current:
            e["curtor"] = -e.get("curtor", 0.0)
    elif iota:
        for k in ("ai", "ai_aux_f"):
            if e.get(k):
                e[k] = neg(e[k])


def flux(d, rng):
    e = copy.deepcopy(d)
    e["phiedge"] *= -1
    if e.get("ncurr"):
        e["curtor"] = -e.get("curtor", 0.0)
    if e.get("lfreeb"):
        e["extcur"] = neg(e["extcur"])
    return e, T(sf=-1)


def helicity(d, rng):
    """the same flux with the opposite rotational transform: only a symmetry
    together with the reflection phi -> -phi"""
    if d.get("lfreeb"):
        return None
    e = copy.deepcopy(d)
    for k in COEF:
        for c in e.get(k) or []:
            if c["m"] == 0:
                if k in ("zbs", "rbs"):
                    c["value"] = -c["value"]
            else:
                c["n"] = -c["n"]
    for k in ("zaxis_s", "raxis_s"):
        if e.get(k):
            e[k] = neg(e[k])
    flip_drive(e)
    return e, T(b=-1)


def scale(d, rng):
    L, B = float(rng.choice([0.5, 2.0, 1.7])), float(rng.choice([0.25, 4.0, 1.3]))
    e = copy.deepcopy(d)
    for k in COEF:
        for c in e.get(k) or []:
            c["value"] *= L
    for k in AXIS:
        if e.get(k):
            e[k] = [L * x for x in e[k]]
    e["phiedge"] *= B * L * L
    g = e.get("gamma", 0.0)
    e["pres_scale"] = e.get("pres_scale", 1.0) * B ** (2 - g)
    if e.get("ncurr"):
        e["curtor"] = e.get("curtor", 0.0) * L * B
    if e.get("lfreeb"):
        e["extcur"] = [B * x for x in e["extcur"]]
        e["_table"] = {"L": L}
    return e, T(L=L, B=B, exact=False)


def rotate(d, rng):
    """rotation about the vertical axis by grid steps (any step in asymmetric
    mode, half a period otherwise)"""
    if not d["ntor"]:
        return None
    nz = d.get("nzeta", 0)
    nz = max(nz, 2 * d["ntor"] + 4)
    if d.get("lasym"):
        k = int(rng.integers(1, nz))
    elif nz % 2 == 0:
        k = nz // 2
    else:
        return None
    if d.get("lfreeb") and not d.get("lasym"):
        return None
    e = copy.deepcopy(d)
    al = 2 * np.pi * k / nz            # in units of the field-period angle
    for pair, sgn in ((("rbc", "rbs"), 1), (("zbc", "zbs"), 1)):
        C, S = {}, {}
        for c in e.get(pair[0]) or []:
            C[c["m"], c["n"]] = c["value"]
        for c in e.get(pair[1]) or []:
            S[c["m"], c["n"]] = c["value"]
        for key in pair:
            e[key] = []
        for m, n in sorted(set(C) | set(S)):
            c, s = C.get((m, n), 0.0), S.get((m, n), 0.0)
            # cos(mt - n(z+al)) = cos(mt-nz) cos(n al) + sin(mt-nz) sin(n al)
            co, si = np.cos(n * al), np.sin(n * al)
            c2, s2 = c * co - s * si, c * si + s * co
            if not d.get("lasym"):
                si = 0.0
                c2, s2 = c * round(co), s * round(co)
            if c2 or m == 0 and n == 0:
                I.set_coef(e, pair[0], m, n, c2)
            if s2:
                I.set_coef(e, pair[1], m, n, s2)
    if not d.get("lasym"):
        e["rbs"], e["zbc"] = [], []
    nax = d["ntor"] + 1
    # the axis arrays hold  R = sum rc cos(n z) + rs sin(n z)  up to the sign
    # convention of the sine part, sin(-n z)
    def pad(k):
        v = list(e.get(k) or [])
        return np.array(v + [0.0] * (nax - len(v)), float)
    n = np.arange(nax)
    co, si = np.cos(n * al), np.sin(n * al)
    for kc, ks in (("raxis_c", "raxis_s"), ("zaxis_c", "zaxis_s")):
        c, s = pad(kc), pad(ks)
        if not d.get("lasym"):
            c2, s2 = c * np.round(co), s * np.round(co)
        else:
            # basis cos(-n z), sin(-n z)
            c2, s2 = c * co - s * si, c * si + s * co
        if d.get("lasym") or kc in ("raxis_c",):
            e[kc] = [float(x) for x in c2]
        if d.get("lasym") or ks in ("zaxis_s",):
            e[ks] = [float(x) for x in s2]
    if d.get("lfreeb"):
        e["_table"] = {"roll": k, "nz": nz}
    return e, T(p0=al / d["nfp"], exact=False)


def updown(d, rng):
    if d.get("lfreeb"):
        return None
    e = copy.deepcopy(d)
    for k in ("zbs", "zbc"):
        for c in e.get(k) or []:
            c["value"] *= -1
    for k in ("zaxis_s", "zaxis_c"):
        if e.get(k):
            e[k] = neg(e[k])
    # the poloidal angle of the input now runs the other way: iota is given
    # with respect to it, the current is not
    flip_drive(e, current=True, iota=False)
    return e, T(a=-1, t0=np.pi, zf=-1)


def as_asym(d, rng):
    if d.get("lasym"):
        return None
    e = copy.deepcopy(d)
    e["lasym"] = True
    e["rbs"], e["zbc"] = [], []
    e["raxis_s"] = [0.0] * (d["ntor"] + 1)
    e["zaxis_c"] = [0.0] * (d["ntor"] + 1)
    return e, T(exact=False)


def vshift(d, rng):
    if not d.get("lasym"):
        return None
    c = float(rng.uniform(-0.5, 0.5))
    e = copy.deepcopy(d)
    I.set_coef(e, "zbc", 0, 0, I.coef(e, "zbc", 0, 0) + c)
    z = list(e.get("zaxis_c") or [0.0] * (d["ntor"] + 1))
    z[0] += c
    e["zaxis_c"] = z
    if d.get("lfreeb"):
        e["_table"] = {"dz": c}
    return e, T(dz=c, exact=False)


def periods(d, rng):
    """the same plasma described with fewer (3-D) or more (2-D) periods"""
    if d.get("lfreeb"):
        return None
    e = copy.deepcopy(d)
    if not d["ntor"]:
        e["nfp"] = int(rng.integers(2, 6))
        return e, T(exact=False)
    f = {2: 2, 3: 3, 4: 2, 5: 5, 6: 2, 10: 2}.get(d["nfp"])
    if not f or d["ntor"] * f > 12:
        return None
    e["nfp"] = d["nfp"] // f
    e["ntor"] = d["ntor"] * f
    if d.get("ntor_geometry"):
        e["ntor_geometry"] = d["ntor_geometry"] * f
    e["nzeta"] = max(d.get("nzeta", 0), 2 * d["ntor"] + 4) * f
    for k in COEF:
        for c in e.get(k) or []:
            c["n"] *= f
    for k in AXIS:
        if e.get(k):
            v = [0.0] * (e["ntor"] + 1)
            for i, x in enumerate(e[k]):
                v[i * f] = x
            e[k] = v
    return e, T(exact=False)


def theta_origin(d, rng):
    """another origin of the poloidal angle"""
    if not d.get("lasym") or d.get("lfreeb"):
        return None
    e = copy.deepcopy(d)
    al = float(rng.uniform(-0.8, 0.8))
    for kc, ks in (("rbc", "rbs"), ("zbc", "zbs")):
        C = {(c["m"], c["n"]): c["value"] for c in e.get(kc) or []}
        S = {(c["m"], c["n"]): c["value"] for c in e.get(ks) or []}
        e[kc], e[ks] = [], []
        for m, n in sorted(set(C) | set(S)):
            c, s = C.get((m, n), 0.0), S.get((m, n), 0.0)
            co, si = np.cos(m * al), np.sin(m * al)
            I.set_coef(e, kc, m, n, c * co + s * si)
            I.set_coef(e, ks, m, n, -c * si + s * co)
    return e, T(exact=False)


TRANS = {f.__name__: f for f in (flux, helicity, scale, rotate, updown, as_asym, vshift, periods, theta_origin)}


# ---------------------------------------------------------------- comparison
def tables(w, as_fn):
    """name -> (cos table, sin table, nyquist?)"""
    z = None
    g = lambda k: np.asarray(getattr(w, k), float) if bool(w.lasym) and getattr(w, k) is not None else z
    return {"R": (w.rmnc, g("rmns"), 0), "Z": (g("zmnc"), w.zmns, 0), "lambda": (g("lmnc_full"), w.lmns_full, 0),
            "B": (w.bmnc, g("bmns"), 1), "g": (w.gmnc, g("gmns"), 1),
            "bsubu": (w.bsubumnc, g("bsubumns"), 1), "bsubv": (w.bsubvmnc, g("bsubvmns"), 1),
            "bsubs": (g("bsubsmnc"), w.bsubsmns, 1), "bsupu": (w.bsupumnc, g("bsupumns"), 1),
            "bsupv": (w.bsupvmnc, g("bsupvmns"), 1), "curru": (w.currumnc, g("currumns"), 1),
            "currv": (w.currvmnc, g("currvmns"), 1)}


def evaluate(w, th, ph):
    out = {}
    ang = {0: np.asarray(w.xm, float)[:, None] * th - np.asarray(w.xn, float)[:, None] * ph,
           1: np.asarray(w.xm_nyq, float)[:, None] * th - np.asarray(w.xn_nyq, float)[:, None] * ph}
    C = {k: np.cos(v) for k, v in ang.items()}
    S = {k: np.sin(v) for k, v in ang.items()}
    for k, (c, s, q) in tables(w, None).items():
        v = 0.0
        if c is not None:
            v = v + np.asarray(c, float).T @ C[q]
        if s is not None:
            v = v + np.asarray(s, float).T @ S[q]
        out[k] = v
    return out


def factors(t, w):
    L, B, sf = t.L, t.B, t.sf
    si = t.a * t.b
    f = {"R": L, "Z": L * t.zf, "lambda": t.a, "B": B, "g": L ** 3, "bsubu": sf * si * B * L, "bsubv": sf * B * L,
         "bsubs": sf * t.b * B * L, "bsupu": sf * si * B / L, "bsupv": sf * B / L, "curru": sf * B * L,
         "currv": sf * si * B * L}
    p = {"iotaf": si, "iotas": si, "q_factor": si, "presf": B * B, "pres": B * B, "phi": sf * B * L * L, "phipf": sf * B * L * L,
         "phips": sf * B * L * L, "chi": sf * si * B * L * L, "chipf": sf * si * B * L * L, "vp": L ** 3,
         "bvco": sf * B * L, "buco": sf * si * B * L, "jcurv": sf * si * B * L, "jcuru": sf * B * L, "ctor": sf * si * B * L,
         "wb": B * B * L ** 3, "wp": B * B * L ** 3, "volume": L ** 3, "aspect": 1, "Aminor_p": L, "Rmajor_p": L,
         "rbtor": sf * B * L, "rbtor0": sf * B * L, "b0": sf * B, "betatotal": 1, "betapol": 1, "betator": 1,
         "betaxis": 1, "volavgB": B, "IonLarmor": 1 / B, "rmax_surf": L, "rmin_surf": L, "zmax_surf": L,
         "jdotb": si * B * B / L, "bdotb": B * B, "bdotgradv": sf * B / L, "specw": 1, "over_r": 1 / L,
         "DMerc": 1 / (B * L * L) ** 2, "DShear": 1 / (B * L * L) ** 2, "DWell": 1 / (B * L * L) ** 2,
         "DCurr": 1 / (B * L * L) ** 2, "DGeod": 1 / (B * L * L) ** 2, "equif": 1, "beta_vol": 1}
    return f, p


def differences(o1, o2, t, rng, d):
    w, v = o1.wout, o2.wout
    th, ph = rng.uniform(0, 2 * np.pi, 24), rng.uniform(0, 2 * np.pi, 24)
    F, P = factors(t, w)
    A = evaluate(w, t.a * th + t.t0, t.b * ph + t.p0)
    Bv = evaluate(v, th, ph)
    out = {}
    bv = float(np.max(np.abs(w.bvco)))
    floor = {"lambda": 1e-2, "bsubu": 1e-3 * bv, "bsubs": 1e-3 * bv, "currv": bv * 1e-3 / 4e-7 / np.pi * w.ns,
             "curru": bv * 1e-3 / 4e-7 / np.pi * w.ns, "bsupu": 1e-3 * float(np.max(np.abs(w.bsupvmnc)))}
    for k in A:
        x, y = F[k] * A[k], Bv[k]
        if k == "Z":
            y = y - t.dz
        out[k] = float(np.max(np.abs(x - y)) / max(np.max(np.abs(x)), abs(F[k]) * floor.get(k, 0.0)))
        if k == "Z":
            out[k] *= float(np.max(np.abs(x))) / (t.L * float(w.Aminor_p))
        if k == "R":
            out[k] *= float(w.Rmajor_p) / float(w.Aminor_p)
    fl = {"iotaf": 1e-2, "iotas": 1e-2, "buco": 1e-3 * bv, "ctor": 1e-3 * bv / 2e-7, "wp": 1e-4 * w.wb, "presf": 1.0, "pres": 1.0,
          "jcurv": bv * 1e-3 / 4e-7 / np.pi * w.ns, "jcuru": bv * 1e-3 / 4e-7 / np.pi * w.ns, "betatotal": 1e-4,
          "betapol": 1e-2, "betator": 1e-4, "betaxis": 1e-4, "jdotb": 1e-3 * bv * bv / w.Rmajor_p ** 3 / 4e-7 / np.pi,
          "chi": 1e-3 * float(np.max(np.abs(w.phi))), "chipf": 1e-3 * float(np.max(np.abs(w.phi))),
          "beta_vol": 1e-4, "equif": 1e-2}
    sc = 1.0 / max(float(np.max(np.abs(w.phi))) ** 2, 1e-300)
    for k in ("DMerc", "DShear", "DWell", "DCurr", "DGeod"):
        fl[k] = sc
    for k, f in P.items():
        x, y = np.atleast_1d(np.asarray(getattr(w, k), float)) * f, np.atleast_1d(np.asarray(getattr(v, k), float))
        if k == "zmax_surf":
            y = y - t.dz
        e = np.max(np.abs(x - y)) / max(float(np.max(np.abs(x))), abs(f) * fl.get(k, 0.0), 1e-300)
        out[k] = float(e) if np.isfinite(e) or np.any(~np.isfinite(x)) else np.inf
    return out


# ---------------------------------------------------------------- cases
NYQ = ("B", "g", "bsubu", "bsubv", "bsubs", "bsupu", "bsupv", "curru", "currv")


def table_for(d, tt):
    """external field of the transformed problem"""
    from vmecpp import _free_boundary as fb
    from vplib import freeb
    t = freeb.table(d["_coils"][0], **d["_coils"][1])
    if not tt:
        return t
    p = t.parameters.model_copy(deep=True)
    b = [np.array(x, float) for x in (t.b_r, t.b_p, t.b_z)]
    L = tt.get("L", 1.0)
    for k in ("r_grid_minimum", "r_grid_maximum", "z_grid_minimum", "z_grid_maximum"):
        setattr(p, k, getattr(p, k) * L + (tt.get("dz", 0.0) if k[0] == "z" else 0.0))
    if "roll" in tt:
        n = p.number_of_phi_grid_points
        b = [np.roll(x.reshape(x.shape[0], n, -1), -tt["roll"] * n // tt["nz"], axis=1).reshape(x.shape) for x in b]
    return fb.MagneticFieldResponseTable(parameters=p, b_r=b[0], b_p=b[1], b_z=b[2])


def run(d, must, table=None):
    kw = {}
    e = {k: v for k, v in d.items() if k not in ("_coils", "_table")}
    if d.get("_coils"):
        kw["magnetic_field"] = table_for(d, table)
    return work.solve(e, must, 1, **kw)


def mirrored(o):
    """the same equilibrium reflected at the midplane (for comparison)"""
    from types import SimpleNamespace
    w = o.wout
    ns = SimpleNamespace(**{k: getattr(w, k) for k in type(w).model_fields})
    ns.zmns = -np.asarray(w.zmns)
    ns.zmnc = -np.asarray(w.zmnc) if bool(w.lasym) else None
    ns.iotaf = -np.asarray(w.iotaf)
    ns.buco = -np.asarray(w.buco)
    return SimpleNamespace(wout=ns)


def symmetry(spec, names, seed, i):
    d, tag, must = work.spec_to_input(spec)
    try:
        a = run(d, must)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    viol, n, cnt, states = [], 0, {}, []
    odd = max(d.get("nzeta", 0), 2 * d["ntor"] + 4) % 2 == 1
    free = bool(d.get("lfreeb"))
    worst = {}
    for name in names:
        rng = np.random.default_rng([seed, i, list(TRANS).index(name)])
        r = TRANS[name](copy.deepcopy(d), rng)
        if r is None:
            continue
        e, t = r
        tab = e.pop("_table", None)
        try:
            b = run(e, False, tab)
        except work.Skip as x:
            viol.append({"key": f"{name}/solves/{tag}", "msg": f"the transformed problem fails: {x}"})
            continue
        cnt["pairs " + name] = cnt.get("pairs " + name, 0) + 1
        states.append(f"{name} {work.describe(d)}")
        na, nb = int(a.wout.itfsq), int(b.wout.itfsq)
        if name == "updown" and d.get("lasym"):
            # the method chooses another poloidal angle
            df = shape.physics(mirrored(a), b)
            lim = {k: (20.0 if not d["ntor"] and k not in ("volume", "phi") else 1.0) * v for k, v in shape.limits(d, 0.5 if must else 4.0).items()}
            for k, v in df.items():
                n += 1
                if not v <= lim[k]:
                    viol.append({"key": f"{name}/{k}/{tag}", "msg": f"{k} differs by {v:.1e} (limit {lim[k]:.0e}) from the reflected original"})
            continue
        df = differences(a, b, t, rng, d)
        if t.p0 or t.a < 0:
            df.pop("b0", None)       # field at one fixed toroidal angle
        if odd and name in ("rotate", "periods"):
            for k in NYQ:            # the highest toroidal mode is reported halved
                df.pop(k, None)
        n += len(df)
        # the path is the same up to round-off, which grows along it
        if abs(na - nb) > max(3, 0.03 * na):
            viol.append({"key": f"{name}/iterations/{tag}", "msg": f"{na} iterations for the original, {nb} for the transformed problem"})
        lim = (1e-5 if na == nb else 1e-3) * ((10 if na == nb else 2) if free else 1) * (30 if na > 3000 else 1)
        bad = sorted(((v, k) for k, v in df.items() if not v <= lim * (10 if k in ("q_factor", "DMerc", "DCurr", "DGeod", "equif") else 1)), reverse=True)
        for v, k in bad[:3]:
            viol.append({"key": f"{name}/{k}/{tag}", "msg": f"{k} differs by {v:.1e} (relative) from the transformed original (limit {lim:.0e}); {len(bad)} quantities differ"})
        w = max(df, key=df.get)
        worst[name] = f"{w} {df[w]:.0e}"
    return {"viol": viol, "evaluations": n, "counters": cnt, "states": states, "sample": {"input": work.describe(d), "largest difference": worst}}


def grids(spec, seed, i):
    """finer angular grids"""
    d, tag, must = work.spec_to_input(spec)
    try:
        a = work.solve(d, must)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    rng = np.random.default_rng([seed, i, 141])
    viol, n, states = [], 0, []
    nt0 = max(d.get("ntheta", 0), 2 * d["mpol"] + 6)
    nz0 = max(d.get("nzeta", 0), 2 * d["ntor"] + 4)
    for kind in ("theta", "zeta") if d["ntor"] else ("theta",):
        e = copy.deepcopy(d)
        if kind == "theta":
            e["ntheta"] = nt0 + int(rng.integers(2, 12))
        else:
            e["nzeta"] = nz0 + int(rng.integers(1, 10))
        try:
            b = work.solve(e, False)
        except work.Skip as x:
            if "Completed" not in str(x):
                viol.append({"key": f"grid/{kind}/{tag}", "msg": f"fails on a finer grid: {x}"})
            continue
        states.append(f"grid {kind} {work.describe(d)}")
        lim = shape.limits(d, 1.0 if must else 6.0)
        for k, v in shape.physics(a, b).items():
            n += 1
            if not v <= GRID.get(k, 1.0) * lim[k]:
                viol.append({"key": f"grid/{kind}/{k}/{tag}", "msg": f"{k} changes by {v:.1e} with the angular grid (limit {GRID.get(k, 1.0) * lim[k]:.0e})"})
    return {"viol": viol, "evaluations": n, "states": states}


GRID = {}


def fft_input(mpol, ntor, nzeta, lasym, name, seed):
    d = I.base(name)
    d["mpol"], d["ntor"], d["nzeta"] = mpol, ntor, nzeta
    for k in ("rbc", "zbs"):
        d[k] = [c for c in d[k] if c["m"] < mpol and abs(c["n"]) <= ntor]
    for k in ("raxis_c", "zaxis_s"):
        d[k] = (d[k] + [0.0] * ntor)[: ntor + 1]
    if lasym:
        d = I.asymmetrise(d, np.random.default_rng(seed), 0.1)
    return I.single(d, 5, 1e-10, 100)


def transform(mpol, ntor, nzeta, lasym, name, seed, path, write):
    """forces and energies of given states; compared between the builds with
    and without the generated transform kernels"""
    from vmecpp.cpp import _vmecpp
    d = fft_input(mpol, ntor, nzeta, lasym, name, seed)
    m = _vmecpp.VmecModel.create(I.mk(d)._to_cpp_vmecindata(), 5)
    rng = np.random.default_rng([seed, mpol, ntor, nzeta, lasym])
    x0 = m.get_state().copy()
    out = {"x0": x0}
    for k in range(3):
        X = x0.reshape(-1, 5, mpol, ntor + 1).copy()
        # all harmonics, of decaying size
        mm, nn = np.meshgrid(np.arange(mpol), np.arange(ntor + 1), indexing="ij")
        amp = 3e-3 * np.max(np.abs(x0.reshape(-1, 5, mpol, ntor + 1)[0, :, 1])) / (1 + mm ** 2 + nn ** 2)
        s = np.linspace(0, 1, 5)[None, :, None, None]
        X = X + rng.standard_normal(X.shape) * amp * s ** (mm / 2.0)
        m.set_state(X.ravel())
        for pre in (False, True):
            m.evaluate(2, 2, precondition=pre)
            if m.restart_reason == 2:
                continue
            out[f"F{k}{int(pre)}"] = m.get_forces().copy()
            out[f"W{k}{int(pre)}"] = np.array([m.mhd_energy, m.fsqr, m.fsqz, m.fsql, float(m.restart_reason)])
    if write:
        np.savez(path, **out)
        return {"evaluations": 0}
    ref = np.load(path)
    viol, n = [], 0
    if set(ref.files) != set(out):
        viol.append({"key": f"transform/{name}/valid", "msg": f"mpol {mpol} ntor {ntor} nzeta {nzeta}: states are valid in one implementation only"})
    for k in ref.files:
        if k not in out:
            continue
        n += 1
        a, b = np.asarray(out[k], float), ref[k]
        e = float(np.max(np.abs(a - b)) / (np.max(np.abs(b)) + 1e-300)) if k[0] != "W" else float(np.max(np.abs(a - b) / (np.abs(b) + 1e-300)))
        if not e <= (1e-12 if k == "x0" else 1e-8):
            viol.append({"key": f"transform/{k[0]}/mpol{mpol}/nzeta{nzeta}/{'asym' if lasym else 'sym'}",
                         "msg": f"{'forces' if k[0] == 'F' else 'energy and residuals' if k[0] == 'W' else 'initial state'} differ by {e:.1e} between the transform implementations (mpol {mpol}, ntor {ntor}, nzeta {nzeta})"})
    return {"viol": viol, "evaluations": n, "states": [f"transform m{mpol} n{ntor} z{nzeta} {'asym' if lasym else 'sym'}"],
            "counters": {"transform size comparisons": n}}


def main(ctx):
    T = ctx.thorough
    ctx.package()
    ctx.package("nofft")
    cases = []
    for k, s in enumerate(work.specs(ctx, 400 if T else 56, canon=[c for c in work.CANONICAL if c != "cma"] + work.FREE)):
        t = s.get("canon", "random")
        names = list(TRANS)
        if not T and "canon" not in s:
            r = np.random.default_rng([ctx.seed, k])
            names = sorted(r.choice(names, 5, replace=False), key=names.index)
        cases.append({"fn": "symmetry", "tag": t, "spec": s, "names": [str(x) for x in names], "seed": ctx.seed, "i": k})
        if (T or k % 3 == 0) and t not in work.FREE:
            cases.append({"fn": "grids", "tag": t, "spec": s, "seed": ctx.seed, "i": k})
    fft = []
    rng = np.random.default_rng([ctx.seed, 1414])
    sizes = [(mp, nz) for mp in (6, 8, 10, 12, 14, 16, 18) for nz in range(16, 41, 4)] + [(5, 16), (7, 20), (6, 18), (6, 15), (9, 21), (6, 44), (20, 16)]
    for mp, nz in sizes:
        for lasym in (False, True):
            nt = int(rng.integers(2, min(nz // 2 - 2, 9) + 1))
            fft.append({"fn": "transform", "tag": f"m{mp}z{nz}", "mpol": mp, "ntor": nt, "nzeta": nz, "lasym": lasym,
                        "name": str(rng.choice(["cth_like_fixed_bdy", "li383_low_res"])), "seed": int(rng.integers(1 << 30)),
                        "path": f"{ctx.scratch}/fft-{mp}-{nz}-{int(lasym)}.npz"})
    if getattr(ctx, "only", None):
        fft = [ctx.only] if ctx.only["fn"] == "transform" else []
        for c in fft:
            c["path"] = f"{ctx.scratch}/fft.npz"
        cases = [] if fft else [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=300)
    ctx.run_cases([{**c, "write": True} for c in fft], env=ctx.env("nofft"), timeout=200)
    ctx.run_cases([{**c, "write": False} for c in fft], env=ctx.env(), timeout=200)
    return ctx.finish(
        "exploration",
        "a state is a transformation together with the feature signature of the input (symmetry, dimension, periods, resolution, grid, profile options, fixed/free boundary), or a transform size",
        ["transformations that map the computational grid onto itself (rotations by grid steps, any vertical shift, scale and poloidal origin); other rotations change the discretisation",
         "for odd nzeta the highest toroidal mode of the Nyquist tables is reported halved, as in the classic code; those tables are then not compared under rotation and period changes",
         "reflected asymmetric inputs end up with another poloidal angle and are compared angle-insensitively at resolution level"],
        min_evaluations=2000, min_states=60)
