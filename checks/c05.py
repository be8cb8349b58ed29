"""C05: a run that returns normally satisfies what was asked.

Monitors on every returned run: convergence contract (residuals, budget,
failure reporting), boundary/flux/profile constraints, residuals recomputed by
the solver from the reported geometry, stationarity of an independently coded
discrete MHD energy, agreement with reference equilibria of the classic code
and with an analytic equilibrium."""
import os

import numpy as np

from vplib import eq, inputs as I, work
from vplib.energy import Energy

REPO = os.environ.get("VP_REPO", "/repo")
TD = f"{REPO}/src/vmecpp/cpp/vmecpp/test_data"


def geometry_limits(d):
    """geometry resolution (may be reduced below that of lambda)"""
    mg, ng = d.get("mpol_geometry", -1), d.get("ntor_geometry", -1)
    return (mg if mg is not None and 1 <= mg <= d["mpol"] else d["mpol"],
            ng if ng is not None and 0 <= ng <= d["ntor"] else d["ntor"])


def surface_in(d, T, Z):
    """requested boundary (modes inside the stated resolution)"""
    r, z = np.zeros_like(T), np.zeros_like(T)
    mg, ng = geometry_limits(d)
    for key, acc, fn in (("rbc", "r", np.cos), ("zbs", "z", np.sin), ("rbs", "r", np.sin), ("zbc", "z", np.cos)):
        if key in ("rbs", "zbc") and not d.get("lasym"):
            continue
        for c in d.get(key) or []:
            m, n = c["m"], c["n"]
            if m >= mg or abs(n) > ng or m < 0:
                continue
            v = c["value"] * fn(m * T - n * d["nfp"] * Z)
            if acc == "r":
                r += v
            else:
                z += v
    return r, z


def surface_out(w, T, Z, j=-1):
    a = w.xm[:, None, None] * T - w.xn[:, None, None] * Z
    C, S = np.cos(a), np.sin(a)
    r = np.tensordot(np.asarray(w.rmnc)[:, j], C, 1)
    z = np.tensordot(np.asarray(w.zmns)[:, j], S, 1)
    if w.lasym:
        r += np.tensordot(np.asarray(w.rmns)[:, j], S, 1)
        z += np.tensordot(np.asarray(w.zmnc)[:, j], C, 1)
    return r, z


def boundary_error(w, d):
    """distance between requested and returned boundary as curves in every
    toroidal plane, up to one common choice of the poloidal angle's origin and
    direction"""
    mp = int(w.mpol)
    nt, nz = 4 * mp + 8, 4 * int(w.ntor) + 5
    T, Z = np.meshgrid(2 * np.pi * np.arange(nt) / nt, 2 * np.pi * np.arange(nz) / nz / int(w.nfp), indexing="ij")
    r1, z1 = surface_in(d, T, Z)
    r2, z2 = surface_out(w, T, Z)
    scale = max(np.ptp(r1), np.ptp(z1))
    k = np.fft.fftfreq(nt, 1.0 / nt)
    fa_r, fa_z = np.fft.fft(r1, axis=0), np.fft.fft(z1, axis=0)
    best = np.inf
    for sgn in (1, -1):
        if sgn == 1:
            br, bz = fa_r, fa_z
        else:                      # theta -> -theta: F(k) -> F(-k)
            idx = (-np.arange(nt)) % nt
            br, bz = fa_r[idx], fa_z[idx]
        fb = np.fft.fft(r2, axis=0), np.fft.fft(z2, axis=0)
        cands = [0.0, np.pi]
        if w.lasym:
            # shift from the m = 1 content of all planes
            p = np.sum(fb[0][1] * np.conj(br[1])) + np.sum(fb[1][1] * np.conj(bz[1]))
            cands.append(float(np.angle(p)))
        for dl in cands:
            ph = np.exp(1j * k * dl)[:, None]
            e = max(np.max(np.abs(fb[0] - br * ph)), np.max(np.abs(fb[1] - bz * ph))) / nt / scale
            best = min(best, float(e))
    return best


def stationarity(o, d, tag):
    """largest |dW| relative to the curvature scale, by class of variation"""
    w = o.wout
    E = Energy(w, d.get("ntheta", 0), d.get("nzeta", 0), float(d.get("gamma", 0.0)))
    out, n = {}, 0
    mg, ng = geometry_limits(d)
    epsl = 1e-3 * float(np.max(np.abs(E.phipF)))
    eps = 1e-3 * float(w.Aminor_p)
    keys = ["rc", "zs", "ls"] + (["rs", "zc", "lc"] if E.lasym else [])
    rng = np.random.default_rng(3)
    for key in keys:
        lam = key[0] == "l"
        for i in range(len(E.xm)):
            m, nn = int(E.xm[i]), abs(int(round(E.xn[i] / E.nfp)))
            if (key in ("zs", "ls", "rs") and m == 0 and nn == 0) or (key == "lc" and m == 0 and nn == 0):
                continue
            if not lam and (m >= mg or nn > ng):
                continue
            if E.mpol > 5 and E.ntor > 3 and rng.random() < .5:
                continue
            for q in (1, 2):
                v = np.zeros((len(E.xm), E.ns))
                v[i] = np.sin(q * np.pi * E.s)
                v[i, -1] = 0.0
                if m > 0 or lam:
                    v[i, 0] = 0.0
                g, c = E.grad(key, v), E.curv(key, v, epsl if lam else eps)
                if abs(c) * eps < 1e-12 * abs(float(w.wb)):
                    continue
                n += 1
                ratio = abs(g) / (abs(c) * (epsl if lam else eps))
                cls = "m0" if m == 0 else "m1" if m == 1 else "hi" if m >= E.mpol - 2 else "in"
                kk = cls + ("l" if lam else "")
                if ratio > out.get(kk, (0,))[0]:
                    out[kk] = (ratio, key, m, int(round(E.xn[i] / E.nfp)), q)
    return out, n


LIM = {"m0": 0.02, "m0l": 0.02, "m1": 0.5, "m1l": 4.0, "in": 0.5, "inl": 0.8, "hi": 6.0, "hil": 6.0}


def reresidual(o, d):
    """residuals that the solver finds for the reported geometry"""
    import vmecpp
    vi = o.input.model_copy(deep=True)
    ns = int(o.wout.ns)
    vi.ns_array, vi.ftol_array, vi.niter_array = np.array([ns]), np.array([1e-30]), np.array([3])
    vi.return_outputs_even_if_not_converged = True
    kw = {}
    if d.get("_coils"):
        from vplib import freeb
        kw["magnetic_field"] = freeb.table(d["_coils"][0], **d["_coils"][1])
    h = vmecpp.run(vi, verbose=False, max_threads=1, restart_from=o, **kw).wout
    # the m = 1 gauge condition enters from the second evaluation on
    out = []
    for x, b in zip((h.force_residual_r, h.force_residual_z, h.force_residual_lambda), (o.wout.fsqr, o.wout.fsqz, o.wout.fsql)):
        x = np.asarray(x, float)[:2]
        out.append(float(x[np.argmin(np.abs(np.log((x + 1e-300) / (float(b) + 1e-300))))]))
    return out


def case(spec, threads=1):
    d, tag, must = work.spec_to_input(spec)
    if spec.get("tf"):
        from checks import c14
        r = c14.TRANS[spec["tf"][0]](d, np.random.default_rng([spec["tf"][1], 505]))
        if r is None:
            return {"skip": "not applicable", "evaluations": 0}
        d, must, tag = r[0], False, f"{tag}/{spec['tf'][0]}"
    try:
        o = work.solve(d, must, threads)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    viol, n = judge(o, d, tag)
    return {"viol": viol, "evaluations": n[0], "states": [work.describe(d)],
            "counters": {"runs": 1, "stationarity directions": n[1]},
            "sample": {"input": work.describe(d), "measured": n[2]}}


def judge(o, d, tag):
    w = o.wout
    viol, nev, meas = [], 0, {}

    def bad(key, msg, detail=None):
        viol.append({"key": f"{key}/{tag}", "msg": msg, "detail": detail})
    # --- contract ---
    tol = float(d["ftol_array"][-1])
    res = [float(w.fsqr), float(w.fsqz), float(w.fsql)]
    nev += 4
    if not max(res) <= tol:
        bad("residual", "a run returned normally with residuals above the requested tolerance", [res, tol])
    budget = sum(d["niter_array"])
    if not 0 < int(w.itfsq) <= budget:
        bad("budget", f"{int(w.itfsq)} iterations recorded with a total budget of {budget}")
    if int(w.ier_flag) != 0:
        bad("flag", "a converged run reports a failure flag")
    # --- constraints ---
    if abs(float(w.phi[-1]) / float(d["phiedge"]) - 1) > 2e-12 and (d.get("aphi") or [1.0]) == [1.0]:
        bad("phiedge", "enclosed flux is not the requested one", [float(w.phi[-1]), d["phiedge"]])
    if not d.get("lfreeb"):
        e = boundary_error(w, d)
        meas["boundary"] = e
        nev += 1
        if not e < 1e-10:
            bad("boundary", f"the returned boundary differs from the requested one by {e:.1e} of its size")
    else:
        e = 0
    from checks import c17
    dd = dict(d)
    for k in ("pmass_type", "piota_type", "pcurr_type"):
        dd.setdefault(k, "power_series")
    dd.setdefault("ncurr", 0)
    dd.setdefault("pres_scale", 1.0)
    if dd["ncurr"] == 1 and not dd.get("curtor"):
        got = np.max(np.abs(np.asarray(w.buco, float))) / np.max(np.abs(np.asarray(w.bvco, float)))
        nev += 1
        if not got < 1e-9:
            bad("current", f"zero current requested, relative poloidal current {got:.1e} found")
    else:
        v, ws = c17.compare(dd, o, tag, c17.is_flipped(d), 1e-5)
        nev += len(ws)
        viol += [{"key": "profile/" + x["key"], "msg": x["msg"], "detail": x.get("detail")} for x in v]
    # geometry must be a proper nested set: positive volume element everywhere
    R = eq.Recon(w, d.get("ntheta", 0), d.get("nzeta", 0))
    nev += 1
    if not np.all(R.g * R.signgs > 0):
        bad("jacobian", "flux surfaces of the returned geometry overlap (Jacobian changes sign)")
    # --- residuals of the reported geometry ---
    rr = reresidual(o, d)
    meas["residual ratio"] = [a / b if b else None for a, b in zip(rr, res)]
    nev += 3
    lim0 = 20.0 if d.get("lfreeb") else 5.0 if d.get("lforbal") else 1.5
    for nm, a, b in zip("rzl", rr, res):
        lim = max(lim0, 4.0 if nm == "z" else 2.0)
        if a > lim * b + 1e-3 * tol + 1e-24 or (b > lim * a + 1e-3 * tol + 1e-24):
            bad(f"residual-{nm}", f"reported residual {b:.3e}, recomputed from the reported geometry {a:.3e}")
    # --- stationarity ---
    st, ndir = stationarity(o, d, tag)
    nev += len(st)
    meas["stationarity"] = {k: round(v[0], 6) for k, v in st.items()}
    if not d.get("lforbal") and int(w.ns) >= 5:
        for k, v in st.items():
            if not v[0] < LIM[k]:
                bad(f"stationary/{k}", f"the energy is not stationary: variation of {v[1]} (m={v[2]}, n={v[3]}, q={v[4]}) "
                    f"gives a first-order change {v[0]:.2g} times its curvature scale (limit {LIM[k]})")
    return viol, (nev, ndir, meas)


def budget(seed, i):
    """too small a budget must raise, or return unconverged data if asked to"""
    import vmecpp
    rng = np.random.default_rng([seed, i, 55])
    names = ["solovev", "solovev_multi", "li383_lasym", "up_down_asym", "cth_lasym", "fb_solovev", "li383_odd"]
    name = names[i % len(names)]
    d = work.canonical(name)
    lim = int(rng.integers(3, 40))
    nst = len(d["ns_array"])
    d["niter_array"] = [lim] * nst
    viol = []
    kw = {}
    if d.get("_coils"):
        from vplib import freeb
        c = d.pop("_coils")
        kw["magnetic_field"] = freeb.table(c[0], **c[1])
    try:
        vmecpp.run(I.mk(d), verbose=False, max_threads=1, **kw)
        viol.append({"key": f"budget/noraise/{name}", "msg": f"{lim} iterations per step cannot converge, yet the run returned normally"})
    except RuntimeError:
        pass
    d["return_outputs_even_if_not_converged"] = True
    o = vmecpp.run(I.mk(d), verbose=False, max_threads=1, **kw)
    w = o.wout
    n = int(w.itfsq)
    if n > lim * nst + nst or n < 1:
        viol.append({"key": f"budget/exceeded/{name}", "msg": f"{n} iterations with a budget of {lim} x {nst}"})
    if max(float(w.fsqr), float(w.fsqz), float(w.fsql)) <= float(w.ftolv):
        viol.append({"key": f"budget/flag/{name}", "msg": "unconverged output reports converged residuals"})
    if int(w.ns) != d["ns_array"][-1]:
        viol.append({"key": f"budget/ns/{name}", "msg": "unconverged output is not at the final resolution"})
    return {"viol": viol, "evaluations": 4, "counters": {"budget cases": 1}, "states": [f"budget {name} {lim}"]}


def crossing(spec, seed):
    """a run converges at the first iteration at which all three residuals are below the tolerance, never before: tolerances and
    budgets are chosen from the trace of a long run so that exactly one residual is missing at the last allowed iteration"""
    import vmecpp
    d, tag, must = work.spec_to_input(spec)
    rng = np.random.default_rng([seed, 505])
    kw = {}
    c = d.pop("_coils", None)
    if c:
        from vplib import freeb
        kw["magnetic_field"] = freeb.table(c[0], **c[1])
    ns = min(int(d["ns_array"][-1]), 15)
    viol, n, states = [], 0, []

    def go(ns_, t, nit, ret=False):
        d["ns_array"], d["ftol_array"], d["niter_array"] = ns_, t, nit
        d["return_outputs_even_if_not_converged"] = ret
        try:
            return vmecpp.run(I.mk(d), verbose=False, max_threads=1, **kw).wout
        except RuntimeError as e:
            return str(e)

    w = go([ns], [1e-14], [1200], True)
    if isinstance(w, str):
        return {"skip": w[:80], "evaluations": 0}
    T = np.array([w.force_residual_r, w.force_residual_z, w.force_residual_lambda], float).T
    restarts = any(int(x) != 1 for x in w.restart_reason_timetrace)
    for x, k, j, t in work.crossings(T, rng):
        comp = "RZL"[x]
        states.append(f"crossing {tag} {comp}")
        for nit, what in ((k + 1, f"the {comp} residual is still above the tolerance"), (j, "the tolerance is met one iteration later")):
            if nit < 1:
                continue
            n += 1
            if not isinstance(go([ns], [t], [nit]), str):
                viol.append({"key": f"crossing/early/{comp}/{tag}", "msg": f"ftol {t:.3e}, budget {nit}: returned normally although {what}"})
        a = go([ns], [t], [j + 1 + (200 if restarts else 0)])
        n += 1
        if isinstance(a, str):
            viol.append({"key": f"crossing/late/{comp}/{tag}", "msg": f"ftol {t:.3e} is met at iteration {j + 1}, yet a budget of {j + 1} does not do: {a[:100]}"})
        elif max(a.fsqr, a.fsqz, a.fsql) > t or abs(a.fsqr / T[j, 0] - 1) > 1e-6 or len(a.force_residual_r) not in (j, j + 1):
            viol.append({"key": f"crossing/where/{comp}/{tag}",
                         "msg": f"ftol {t:.3e} is met at iteration {j + 1}, the run stops after {len(a.force_residual_r)} with {a.fsqr:.2e} {a.fsqz:.2e} {a.fsql:.2e}"})
    return {"viol": viol, "evaluations": n, "counters": {"crossings": n}, "states": states, **({} if n else {"skip": "no crossing in the trace"})}


REFS = [("solovev", "wout_solovev", 1e-9), ("solovev_analytical", "wout_solovev_analytical", 1e-9),
        ("solovev_no_axis", "wout_solovev_no_axis", 1e-9),
        ("circular_tokamak", "wout_circular_tokamak_reference", 1e-9),
        ("li383_low_res", "wout_li383_low_res_reference", 1e-7),
        ("cth_like_fixed_bdy", "wout_cth_like_fixed_bdy", 1e-7), ("cma", "wout_cma", 1e-7)]


def reference(name, ref, tol):
    """equilibria computed by the classic code (files of the repository's own
    test data)"""
    import netCDF4
    d = I.raw(name)
    w = work.solve(d, True).wout
    viol, n = [], 0
    with netCDF4.Dataset(f"{TD}/{ref}.nc") as f:
        def arr(k):
            return np.asarray(f[k][()], float)
        for ours, theirs in (("rmnc", "rmnc"), ("zmns", "zmns"), ("bmnc", "bmnc"), ("gmnc", "gmnc"), ("iotas", "iotas"),
                             ("vp", "vp"), ("bvco", "bvco"), ("phi", "phi"), ("pres", "pres"), ("DMerc", "DMerc"),
                             ("wb", "wb"), ("wp", "wp"), ("volume", "volume_p"), ("betatotal", "betatotal"),
                             ("aspect", "aspect"), ("b0", "b0"), ("rbtor", "rbtor")):
            a, b = np.asarray(getattr(w, ours), float), arr(theirs)
            if b.ndim == 2 and a.shape == b.T.shape and a.shape != b.shape:
                b = b.T
            n += 1
            if a.shape != b.shape:
                viol.append({"key": f"reference/shape/{ours}/{name}", "msg": f"{ours} has shape {a.shape}, reference {b.shape}"})
                continue
            e = float(np.max(np.abs(a - b)) / max(np.max(np.abs(b)), 1e-30))
            t = tol * (100 if ours == "DMerc" else 10 if b.ndim == 2 else 1)
            if not e < t:
                viol.append({"key": f"reference/{ours}/{name}", "msg": f"{ours} differs from the reference equilibrium by {e:.1e}"})
    return {"viol": viol, "evaluations": n, "counters": {"reference equilibria": 1}, "states": ["reference " + name]}


def analytic():
    """Solov'ev equilibrium: the poloidal flux is a known polynomial in R^2, Z;
    the error on interior surfaces decreases with the radial resolution"""
    errs = []
    for ns in (17, 33):
        d = I.single(I.base("solovev_analytical"), ns, 1e-13)
        d["mpol"] = 8
        w = work.solve(d, True).wout
        # on every flux surface the Solov'ev flux function must be constant:
        # fit psi = a R^4 + b R^2 + c R^2 Z^2 + d0 + e Z^2 with one constant per surface
        T = np.linspace(0, 2 * np.pi, 64, endpoint=False)
        rows, js = [], range(2, ns)
        for j in js:
            r = np.cos(np.outer(T, w.xm)) @ np.asarray(w.rmnc)[:, j]
            z = np.sin(np.outer(T, w.xm)) @ np.asarray(w.zmns)[:, j]
            rows.append((r, z))
        r0 = float(np.mean(rows[-1][0]))
        A = []
        for r, z in rows:
            x = (r / r0) ** 2
            f = np.stack([x ** 2, x, x * (z / r0) ** 2, (z / r0) ** 2], 1)
            A.append(f - f.mean(axis=0))
        A = np.concatenate(A)
        A = A / np.max(np.abs(A), axis=0)
        errs.append(float(np.linalg.svd(A, compute_uv=False)[-1] / np.sqrt(A.shape[0])))
    viol = []
    if not errs[0] < 2e-3:
        viol.append({"key": "analytic/fit", "msg": f"flux surfaces are not those of a Solov'ev flux function (misfit {errs[0]:.1e})"})
    if not errs[1] < 0.6 * errs[0] and errs[1] > 1e-5:
        viol.append({"key": "analytic/order", "msg": f"misfit does not decrease with resolution: {errs}"})
    return {"viol": viol, "evaluations": 2, "states": ["analytic"], "sample": {"analytic misfit": errs}}


def main(ctx):
    ctx.package()
    sp = work.specs(ctx, 600 if ctx.thorough else 110, canon=work.CANONICAL + work.FREE)
    cases = [{"fn": "case", "tag": s.get("canon", "random"), "spec": s, "threads": 1 + (i % 3 == 2) * 2}
             for i, s in enumerate(sp)]
    # the same plasma described upside down, turned or with another origin of the angle
    TF = ("updown", "theta_origin", "rotate", "vshift")
    sp = [{**s, "tf": [t, ctx.seed + i]} for i, s in enumerate(
        work.specs(ctx, 60 if ctx.thorough else 8, canon=[c for c in work.CANONICAL if c not in ("cma", "solovev_multi")]))
        for t in (TF if ctx.thorough or "lasym" in s.get("canon", "") or s.get("canon") == "up_down_asym" else [TF[0]])]
    cases += [{"fn": "case", "tag": f"{s.get('canon', 'random')}/{s['tf'][0]}", "spec": s} for s in sp]
    cases += [{"fn": "budget", "tag": "budget", "seed": ctx.seed, "i": i} for i in range(42 if ctx.thorough else 14)]
    cases += [{"fn": "crossing", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed + i} for i, s in enumerate(
        work.specs(ctx, 90 if ctx.thorough else 10, canon=[c for c in work.CANONICAL + work.FREE if c not in ("cma", "fb_cth_odd")]))]
    cases += [{"fn": "reference", "tag": n, "name": n, "ref": r, "tol": t} for n, r, t in REFS]
    cases += [{"fn": "analytic", "tag": "analytic"}]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases)
    return ctx.finish(
        "exploration",
        "a run counts by its feature signature; per run the convergence contract, boundary, flux and profile constraints, "
        "recomputed residuals and the first variation of the energy in every class of modes are evaluated",
        ["stationarity limits are several times the largest value over all resolved runs of the unchanged tree, because the "
         "reported state lacks the preconditioned m=1 gauge part and the highest modes are only weakly determined",
         "lforbal runs trade stationarity for force balance and are exempt from that one monitor",
         "reference files are those in the repository's test data"],
        min_evaluations=1000, min_states=30)
