"""C12: the equilibrium does not depend on the path of resolutions.

Monitors: (1) the same target resolution is reached directly, through radial
multigrid schedules (including repeated entries), through Fourier continuation
in one call and through hand-made continuation with interpolate_solution; the
converged equilibria are compared with angle-insensitive measures (energies,
flux-surface distances, profiles).  (2) every interpolate_solution result is
checked mode by mode against its contract.  (3) ill-formed schedules must be
refused."""
import copy

import numpy as np

from vplib import inputs as I, outs, shape, work


def tight(d):
    return 1e-13 if d.get("lfreeb") else 1e-16


def judge(a, b, d, key, tag, viol, slack=1.0):
    r, L = shape.physics(a, b), shape.limits(d, slack)
    bad = [k for k in r if not r[k] <= L[k]]
    if bad:
        viol.append({"key": f"{key}/{tag}", "msg": "different equilibria: " + ", ".join(f"{k} differs by {r[k]:.1e} (allowed {L[k]:.0e})" for k in bad),
                     "detail": r})
    return len(r)


def schedule(rng, ns, kind):
    if kind == "two":
        return [int(rng.integers(4, ns)), ns]
    if kind == "three":
        a = int(rng.integers(4, max(5, ns // 2)))
        return [a, int(rng.integers(a, ns)), ns]
    if kind == "repeat":
        return [ns, ns] if rng.random() < 0.5 else [5, 5, ns]
    return [3, ns]


def field_kw(d):
    d = dict(d)
    c = d.pop("_coils", None)
    if not c:
        return d, {}
    from vplib import freeb
    return d, {"magnetic_field": freeb.table(c[0], **c[1])}


def paths(spec, seed, i):
    import vmecpp
    rng = np.random.default_rng([seed, i, 12])
    d, tag, must = work.spec_to_input(spec)
    ns, ft = d["ns_array"][-1], tight(d)
    d, kw = field_kw(d)
    I.single(d, ns, ft, 12000)
    try:
        a = work.solve(d, False, **kw)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    viol, n, states, cnt = [], 0, [], {}

    def run(dd, what, vi=None, **k2):
        nonlocal n
        try:
            if vi is None:
                b = work.solve(dd, False, **kw, **k2)
            else:
                b = vmecpp.run(vi, verbose=False, max_threads=1, **kw, **k2)
        except (work.Skip, RuntimeError) as e:
            cnt[f"{what}: not converged"] = cnt.get(f"{what}: not converged", 0) + 1
            if "did not converge" not in str(e):
                viol.append({"key": f"{what}-fails/{tag}", "msg": f"the direct run converges, but {what} fails: {str(e)[:160]}"})
            return None, str(e)
        n += judge(a, b, d, what, tag, viol, 0.5 if must else 4.0)
        cnt[what] = cnt.get(what, 0) + 1
        states.append(f"{what} {work.describe(dd)}")
        return b, None

    for kind in ("two", "three", "repeat", "ns3") if must else (str(rng.choice(["two", "three", "repeat"])), "repeat"):
        e = copy.deepcopy(d)
        sch = schedule(rng, ns, kind)
        I.multi(e, sch, [float(rng.choice([1e-6, 1e-8, 1e-10]))] * (len(sch) - 1) + [ft], 12000)
        b, err = run(e, f"multigrid-{kind}")
        if b is None and kind == "repeat" and sch == [ns, ns]:
            viol.append({"key": f"multigrid-repeat-fails/{tag}", "msg": f"ns_array={sch} fails although ns_array={[ns]} converges: {err[:120]}"})
        if b is not None:
            w = b.wout
            if int(w.ns) != ns or abs(float(w.ftolv) - ft) > 0 or not max(w.fsqr, w.fsqz, w.fsql) <= ft:
                viol.append({"key": f"multigrid-final/{tag}", "msg": f"ended at ns={w.ns}, ftol={w.ftolv}, residuals {w.fsqr:.1e} {w.fsqz:.1e} {w.fsql:.1e}"})
            n += 1
    # Fourier continuation, one call
    if d["mpol"] > 3 and not d.get("mpol_geometry") and not d.get("ntor_geometry"):
        nn = int(rng.integers(2, 4))
        mp = [max(2, d["mpol"] - int(x)) for x in sorted(rng.integers(0, 3, nn - 1))[::-1]] + [d["mpol"]]
        nt = [max(1, d["ntor"] - int(x)) for x in sorted(rng.integers(0, 2, nn - 1))[::-1]] + [d["ntor"]] if d["ntor"] else 0
        nsa = sorted(int(rng.integers(5, ns + 1)) for _ in range(nn - 1)) + [ns]
        vi = I.mk(d)
        ref = vi.model_copy(deep=True)
        vi = vi.model_copy(update=dict(mpol=np.array(mp), ntor=np.array(nt) if d["ntor"] else 0, ns_array=np.array(nsa),
                                       ftol_array=np.array([1e-8] * (nn - 1) + [ft]), niter_array=np.array([12000] * nn)))
        if d.get("ntheta"):
            pass
        b, err = run(d, "fourier-continuation", vi=vi)
        if b is not None:
            w = b.wout
            if (int(w.ns), int(w.mpol), int(w.ntor)) != (ns, d["mpol"], d["ntor"]) or float(w.ftolv) != ft:
                viol.append({"key": f"continuation-final/{tag}", "msg": f"ended at ns={w.ns} mpol={w.mpol} ntor={w.ntor} ftol={w.ftolv}"})
            bad = [k for k, v in outs.flat(b.input).items() if not outs.equal(v, outs.flat(vi)[k])]
            if bad:
                viol.append({"key": f"continuation-input/{tag}", "msg": f"reported input differs from the one passed in {bad}"})
            n += 2
        del ref
    # by hand: solve coarse, interpolate, restart at the target
    if not d.get("mpol_geometry") and not d.get("ntor_geometry"):
        from vmecpp import VmecInput
        c = I.mk(d)
        mp, nt = max(3, d["mpol"] - 1), (max(1, d["ntor"] - 1) if d["ntor"] else 0)
        c.mpol, c.ntor = mp, nt
        for k in ("rbc", "zbs", "rbs", "zbc"):
            v = getattr(c, k)
            if v is not None:
                setattr(c, k, VmecInput.resize_2d_coeff(v, mpol_new=mp, ntor_new=nt))
        for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            v = getattr(c, k)
            if v is not None:
                setattr(c, k, np.asarray(v)[:nt + 1])
        c.ns_array, c.ftol_array = np.array([max(5, ns // 2)]), np.array([1e-9])
        try:
            o = vmecpp.run(c, verbose=False, max_threads=1, **kw)
        except RuntimeError:
            o = None
        if o is not None:
            g = vmecpp.interpolate_solution(o, I.mk(d))
            run(d, "hand-continuation", restart_from=g)
    return {"viol": viol, "evaluations": n, "states": states, "counters": cnt,
            "sample": {"input": work.describe(d), "paths": states}}


STATE = ("rmnc", "zmns", "lmns", "lmns_full", "rmns", "zmnc", "lmnc", "lmnc_full")


def RADIAL(model):
    """fields declared as living on the radial grid"""
    out = set()
    for q, f in model.model_fields.items():
        for a in (f.annotation, *getattr(f.annotation, "__args__", ())):
            if str(getattr(a, "dim_str", "")).split()[-1:] == ["n_surfaces"]:
                out.add(q)
    return out


def radial(v, m, ns_new):
    """documented scheme: linear in sqrt(s); odd m divided by sqrt(s), linearly
    extrapolated to the axis, zero on the axis"""
    ns = len(v)
    x, y = np.sqrt(np.arange(ns) / (ns - 1)), np.sqrt(np.arange(ns_new) / (ns_new - 1))
    f = np.array(v, float)
    if m % 2:
        f[1:] /= x[1:]
        f[0] = 2 * f[1] - f[2]
    out = np.empty(ns_new)
    for k, yy in enumerate(y):
        j = min(int(np.searchsorted(x, yy, side="right")) - 1, ns - 2)
        t = (yy - x[j]) / (x[j + 1] - x[j])
        out[k] = (1 - t) * f[j] + t * f[j + 1]
    if m % 2:
        out *= y
        out[0] = 0.0
    return out


def interp(spec, seed, i, ntarget):
    import vmecpp
    rng = np.random.default_rng([seed, i, 13])
    d, tag, must = work.spec_to_input(spec)
    try:
        a = work.solve(d, must)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    d = {k: v for k, v in d.items() if k != "_coils"}
    viol, n, states = [], 0, []

    def bad(what, msg):
        viol.append({"key": f"interpolate-{what}/{tag}", "msg": msg})
    w = a.wout
    ns0, mp0, nt0 = int(w.ns), int(w.mpol), int(w.ntor)
    src = {(int(m), int(x)): k for k, (m, x) in enumerate(zip(w.xm, w.xn))}
    for k in range(ntarget):
        if k == 0:
            ns, mp, nt = ns0, mp0, nt0
        elif k == 1:
            ns, mp, nt = 2 * (ns0 - 1) + 1, mp0, nt0
        elif k == 2:
            ns, mp, nt = 3 * (ns0 - 1) + 1, mp0 + 2, nt0 + 1
        else:
            ns = int(rng.integers(3, 3 * ns0))
            mp = int(rng.integers(2, mp0 + 4))
            nt = int(rng.integers(0, nt0 + 3))
        t = I.mk(d)
        t.mpol, t.ntor, t.ns_array = mp, nt, np.array([ns])
        for q in ("rbc", "zbs", "rbs", "zbc"):
            if getattr(t, q) is not None:
                setattr(t, q, vmecpp.VmecInput.resize_2d_coeff(getattr(t, q), mpol_new=mp, ntor_new=nt))
        for q in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            if getattr(t, q) is not None:
                setattr(t, q, np.pad(np.asarray(getattr(t, q), float), (0, 99))[:nt + 1])
        before, tbefore = outs.flat(a.model_copy(deep=True)), outs.flat(t.model_copy(deep=True))
        g = vmecpp.interpolate_solution(a, t)
        if [x for x in before if not outs.equal(before[x], outs.flat(a)[x])]:
            bad("source", "source output modified")
        if [x for x in tbefore if not outs.equal(tbefore[x], outs.flat(t)[x])]:
            bad("target", "target input modified")
        v = g.wout
        states.append(f"{'same' if k == 0 else 'refine' if ns > ns0 else 'coarsen'} m{np.sign(mp - mp0)} n{np.sign(nt - nt0)} {work.describe(d)}")
        want = [(m, x * int(w.nfp)) for m in range(mp) for x in range(0 if m == 0 else -nt, nt + 1)]
        if [(int(m), int(x)) for m, x in zip(v.xm, v.xn)] != want or (int(v.ns), int(v.mpol), int(v.ntor), int(v.mnmax)) != (ns, mp, nt, len(want)):
            bad("table", f"mode table or sizes wrong for ns={ns} mpol={mp} ntor={nt}")
            continue
        for q in STATE:
            x0, x1 = getattr(w, q), getattr(v, q)
            if x0 is None or np.size(x0) == 0:
                if x1 is not None and np.size(x1):
                    bad("symmetry", f"{q} appeared")
                continue
            x0, x1 = np.asarray(x0, float), np.asarray(x1, float)
            if x1.shape != (len(want), ns):
                bad("shape", f"{q} has shape {x1.shape}, expected {(len(want), ns)}")
                continue
            if np.shares_memory(x0, x1):
                bad("alias", f"{q} shares memory with the source")
            sc = float(np.max(np.abs(x0))) + 1e-300
            for row, mn in enumerate(want):
                n += 1
                if mn not in src:
                    if np.any(x1[row]):
                        bad("newmode", f"{q}: new mode {mn} is not zero")
                    continue
                y = x0[src[mn]]
                if ns == ns0:
                    if not np.array_equal(y, x1[row]):
                        bad("identity", f"{q}: mode {mn} changed although the radial grid is the same")
                    continue
                if abs(x1[row][-1] - y[-1]) > 1e-13 * sc:
                    bad("boundary", f"{q}: boundary value of mode {mn} changed")
                if mn[0] % 2 == 0 and abs(x1[row][0] - y[0]) > 1e-13 * sc:
                    bad("axis", f"{q}: axis value of mode {mn} changed")
                if mn[0] % 2 and x1[row][0] != 0 and q not in ("lmns", "lmnc"):
                    bad("axis", f"{q}: odd mode {mn} not zero on the axis")
                if (ns - 1) % (ns0 - 1) == 0:
                    st = (ns - 1) // (ns0 - 1)
                    e = np.max(np.abs(x1[row][::st][1:] - y[1:]))
                    if e > 1e-12 * sc:
                        bad("shared", f"{q}: mode {mn} differs by {e:.1e} on shared surfaces")
                e = np.max(np.abs(x1[row] - radial(y, mn[0], ns)))
                if e > 1e-10 * sc:
                    bad("values", f"{q}: mode {mn} differs by {e / sc:.1e} from the documented interpolation")
        for q in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc"):
            x0, x1 = getattr(w, q), getattr(v, q)
            if x0 is None or np.size(x0) == 0:
                continue
            y = np.zeros(nt + 1)
            m = min(nt, nt0) + 1
            y[:m] = np.asarray(x0)[:m]
            n += 1
            if not np.array_equal(np.asarray(x1, float), y):
                bad("axisarray", f"{q} not carried over")
        # every other array: radial ones have the new length and keep axis and
        # boundary values, and nothing is shared with the source
        for q in type(w).model_fields:
            x0, x1 = getattr(w, q), getattr(v, q)
            if not isinstance(x0, np.ndarray) or x0.size == 0:
                continue
            n += 1
            if isinstance(x1, np.ndarray) and np.shares_memory(x0, x1):
                bad("alias", f"{q} shares memory with the source")
            if q in STATE or q not in RADIAL(type(w)):
                continue
            if np.shape(x1) != (*x0.shape[:-1], ns):
                bad("profile-length", f"{q} has shape {np.shape(x1)} at ns={ns}, {x0.shape} at ns={ns0}")
            elif not (np.array_equal(x1[..., 0], x0[..., 0], equal_nan=True) and np.array_equal(x1[..., -1], x0[..., -1], equal_nan=True)):
                bad("profile-ends", f"{q}: axis or boundary value changed")
            elif ns == ns0 and not np.array_equal(x1, x0, equal_nan=True):
                bad("profile-identity", f"{q} changed although the radial grid is the same")
    return {"viol": viol[:10], "evaluations": n, "states": states, "counters": {"interpolations": ntarget}}


def refuse(k):
    """schedules that must be refused"""
    import vmecpp
    d = work.canonical("solovev")
    viol, n = [], 0

    def must_raise(what, fn):
        nonlocal n
        n += 1
        try:
            fn()
        except Exception:
            return
        viol.append({"key": f"accepted/{what}", "msg": f"{what} was accepted"})

    def run_with(**upd):
        vi = I.mk(work.canonical("solovev")).model_copy(update=upd)
        return vmecpp.run(vi, verbose=False, max_threads=1)
    a = np.array
    must_raise("decreasing ns_array", lambda: run_with(ns_array=a([11, 5]), ftol_array=a([1e-8, 1e-10]), niter_array=a([500, 500])))
    must_raise("mpol schedule of the wrong length", lambda: run_with(mpol=a([4, 5, 6]), ns_array=a([5, 11]), ftol_array=a([1e-8, 1e-10]), niter_array=a([900, 900])))
    must_raise("ntor schedule of the wrong length", lambda: run_with(ntor=a([0]), ns_array=a([5, 11]), ftol_array=a([1e-8, 1e-10]), niter_array=a([900, 900])))
    return {"viol": viol, "evaluations": n, "states": ["refused schedules"]}


def main(ctx):
    ctx.package()
    T = ctx.thorough
    cases = []
    canon = [c for c in work.CANONICAL + work.FREE if c not in ("solovev_multi", "fb_cth_lasym") and (T or c not in ("cma", "cth_spline"))]
    for i, s in enumerate(work.specs(ctx, 200 if T else 40, canon=canon)):
        cases.append({"fn": "paths", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": i})
    for i, s in enumerate(work.specs(ctx, 60 if T else 16, canon=["solovev", "up_down_asym", "li383", "li383_lasym", "cth_lasym", "fb_solovev", "circular_tokamak"])):
        cases.append({"fn": "interp", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": i, "ntarget": 30 if T else 10})
    cases.append({"fn": "refuse", "tag": "refuse", "k": 0})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=400)
    return ctx.finish(
        "exploration",
        "a state is a path kind together with an input feature signature, or a direction of interpolation with an input signature",
        ["converged at ftol 1e-16 (free boundary 1e-13); 2-D symmetric equilibria agree to 1e-5 and better; in 3-D and asymmetric runs the "
         "method leaves the m=1 poloidal angle gauge to the path, so the limits there are the observed resolution-level differences times ~5",
         "a path that does not converge is counted, not judged, except exact repetition of a converging stage"],
        min_evaluations=500, min_states=40)
