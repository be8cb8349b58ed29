"""C11: restarting from a converged result continues that result.

Monitors: (1) self restarts (original object, object that went through a wout
file, through text) must need (almost) no iterations and return the same
output; (2) restarts for a modified problem are compared with a run from
scratch (angle-insensitive measures) and must carry the modified boundary
exactly; (3) restarts with foreign restart data must raise."""
import copy
import os

import numpy as np

from vplib import inputs as I, outs, shape, work


def setup(spec):
    d, tag, must = work.spec_to_input(spec)
    kw = {}
    c = d.pop("_coils", None)
    if c:
        from vplib import freeb
        kw["magnetic_field"] = freeb.table(c[0], **c[1])
    return d, tag, must, kw


def via_file(o):
    import vmecpp
    p = os.path.join(os.getcwd(), "wout_restart.nc")
    o.wout.save(p)
    try:
        return o.model_copy(update={"wout": vmecpp.VmecWOut.from_wout_file(p)})
    finally:
        os.unlink(p)


def via_json(o):
    import vmecpp
    return vmecpp.VmecOutput.model_validate_json(o.model_dump_json())


def self_restart(spec, seed, i, threads):
    d, tag, must, kw = setup(spec)
    try:
        a = work.solve(d, must, **kw)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    I.single(d, d["ns_array"][-1], d["ftol_array"][-1], d["niter_array"][-1])
    viol, n, states = [], 0, []
    free = bool(d.get("lfreeb"))
    how = {"object": lambda o: o, "file": via_file, "text": via_json}
    for name, f in how.items():
        src = f(a)
        try:
            b = work.solve(d, True, threads if name == "object" else 1, restart_from=src, **kw)
        except work.Unexpected as e:
            viol.append({"key": f"self-fails/{name}/{tag}", "msg": f"restart from its own result fails: {str(e)[:160]}"})
            continue
        n += 1
        states.append(f"self {name} {work.describe(d)}")
        it = int(b.wout.itfsq)
        if it > (0.5 * int(a.wout.itfsq) if free else max(10, 0.05 * int(a.wout.itfsq))):
            viol.append({"key": f"self-iterations/{name}/{tag}", "msg": f"self restart took {it} iterations (from scratch {a.wout.itfsq})"})
        if free:
            L, r = shape.limits(d, 1.0), shape.physics(a, b)
            bad = [f"{k} {r[k]:.1e}" for k in r if not r[k] <= L[k]]
        else:
            r = outs.diff(a, b, names=outs.GEOM + ["wout.rmns", "wout.zmnc", "wout.lmnc_full", "wout.bmns", "wout.gmns", "wout.iotas",
                                                   "wout.buco", "wout.jdotb", "wout.DMerc", "wout.mass", "wout.pres", "wout.presf"],
                          floor={"wout.lmns_full": 1e-6, "wout.lmnc_full": 1e-6, "wout.buco": 1e-6 * float(np.max(np.abs(a.wout.bvco)))})
            # currents amplify round-off by (ns-1)^2 and suffer cancellation
            lim = {"wout.jdotb": 1e-4, "wout.DMerc": 1e-4}
            bad = [f"{k} {r[k]:.1e}" for k in r if not r[k] <= lim.get(k, 1e-9 if it == 0 else 1e-3)]
            if max(abs(np.asarray(a.wout.jdotb))) < 1e-3:
                bad = [x for x in bad if not x.startswith("wout.jdotb")]
        n += len(r)
        if bad:
            viol.append({"key": f"self-result/{name}/{tag}", "msg": f"self restart changed the result: {', '.join(bad[:6])}"})
    return {"viol": viol, "evaluations": n, "states": states, "counters": {"self restarts": 3},
            "sample": {"input": work.describe(d), "iterations from scratch": int(a.wout.itfsq)}}


def modify(d, rng, what):
    e = copy.deepcopy(d)
    f = 1 + float(rng.choice([-1, 1])) * 0.02
    if what == "boundary":
        for k in ("rbc", "zbs"):
            for c in e[k]:
                if (c["m"], c["n"]) != (0, 0):
                    c["value"] *= f
    elif what == "boundary-asym":
        for k in ("rbs", "zbc"):
            for c in e.get(k) or []:
                c["value"] *= 1.3
    elif what == "mode":
        k = str(rng.choice(["rbc", "zbs"]))
        m, nn = int(rng.integers(1, e["mpol"])), int(rng.integers(-e["ntor"], e["ntor"] + 1))
        I.set_coef(e, k, m, nn, I.coef(e, k, m, nn) + 0.01 * abs(I.coef(e, "rbc", 1, 0)))
    elif what == "pressure":
        e["pres_scale"] = float(e.get("pres_scale", 1.0)) * 1.2
    elif what == "current":
        if e.get("ncurr"):
            e["curtor"] = float(e.get("curtor", 0.0)) * 1.05
        elif e.get("ai"):
            e["ai"] = [float(x) * 1.03 for x in e["ai"]]
    elif what == "phiedge":
        e["phiedge"] = float(e["phiedge"]) * 1.05
    return e


def modified(spec, seed, i):
    rng = np.random.default_rng([seed, i, 11])
    d, tag, must, kw = setup(spec)
    try:
        a = work.solve(d, must, **kw)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    ns = d["ns_array"][-1]
    kinds = ["pressure", "current", "phiedge"]
    if not d.get("lfreeb"):
        kinds += ["boundary", "mode", "boundary"]
        if d.get("lasym"):
            kinds += ["boundary-asym"]
    viol, n, states, cnt = [], 0, [], {}
    for what in list(rng.permutation(kinds))[:3] if not must else kinds:
        e = modify(d, rng, what)
        e = I.single(e, ns, 1e-13 if d.get("lfreeb") else 1e-16, 12000)
        try:
            cold = work.solve(e, False, **kw)
        except work.Skip:
            cnt["cold run not converged"] = cnt.get("cold run not converged", 0) + 1
            continue
        try:
            hot = work.solve(e, False, int(rng.choice([1, 3])), restart_from=a, **kw)
        except work.Skip:
            cnt["hot run not converged"] = cnt.get("hot run not converged", 0) + 1
            continue
        L, r = shape.limits(e, 0.5 if must else 4.0), shape.physics(cold, hot)
        bad = [f"{k} differs by {r[k]:.1e} (allowed {L[k]:.0e})" for k in r if not r[k] <= L[k]]
        n += len(r)
        if bad:
            viol.append({"key": f"modified/{what}/{tag}", "msg": "hot and cold runs give different equilibria: " + ", ".join(bad), "detail": r})
        if not d.get("lfreeb"):
            for q in ("rmnc", "zmns") + (("rmns", "zmnc") if d.get("lasym") else ()):
                x, y = np.asarray(getattr(cold.wout, q))[:, -1], np.asarray(getattr(hot.wout, q))[:, -1]
                n += 1
                if np.max(np.abs(x - y)) > 1e-12 * (1 + np.max(np.abs(x))):
                    viol.append({"key": f"modified-boundary/{what}/{tag}", "msg": f"boundary of the hot run differs from the requested one in {q} by {np.max(np.abs(x - y)):.1e}"})
        cnt[f"modified {what}"] = cnt.get(f"modified {what}", 0) + 1
        states.append(f"{what} {work.describe(e)}")
    # continue on a finer grid
    if not d.get("lfreeb"):
        ft = 1e-16
        e = I.multi(copy.deepcopy(d), [ns, 2 * ns - 1], [1e-10, ft], 12000)
        f = I.single(copy.deepcopy(d), 2 * ns - 1, ft, 12000)
        try:
            cold = work.solve(f, False)
            hot = work.solve(e, False, restart_from=a)
        except work.Skip:
            cnt["refined restart not converged"] = 1
        else:
            L, r = shape.limits(f, 0.5 if must else 4.0), shape.physics(cold, hot)
            bad = [f"{k} differs by {r[k]:.1e} (allowed {L[k]:.0e})" for k in r if not r[k] <= L[k]]
            n += len(r)
            states.append(f"refined {work.describe(e)}")
            cnt["refined restart"] = 1
            if bad:
                viol.append({"key": f"refined/{tag}", "msg": "restart plus refinement gives a different equilibrium: " + ", ".join(bad), "detail": r})
    return {"viol": viol, "evaluations": n, "states": states, "counters": cnt}


def refused(name):
    """restart data that does not fit"""
    import vmecpp
    d, tag, must, kw = setup({"canon": name})
    a = work.solve(d, True, **kw)
    I.single(d, d["ns_array"][-1], d["ftol_array"][-1], d["niter_array"][-1])
    vi = I.mk(d)
    viol, states, n = [], [], 0

    def trial(what, src, inp):
        nonlocal n
        n += 1
        states.append(f"refuse {what} {name}")
        try:
            vmecpp.run(inp, verbose=False, max_threads=1, restart_from=src, **kw)
        except Exception:
            return
        viol.append({"key": f"accepted/{what}/{name}", "msg": f"restart with {what} was accepted"})

    def change(**kk):
        e = copy.deepcopy(d)
        for k in ("rbc", "zbs", "rbs", "zbc"):
            if "mpol" in kk or "ntor" in kk:
                e[k] = [c for c in e.get(k) or [] if c["m"] < kk.get("mpol", e["mpol"]) and abs(c["n"]) <= kk.get("ntor", e["ntor"])]
        if "ntor" in kk:
            for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
                if e.get(k):
                    e[k] = e[k][:kk["ntor"] + 1]
        e.update(kk)
        return I.mk(e)
    trial("more poloidal modes", a, change(mpol=d["mpol"] + 1))
    trial("fewer poloidal modes", a, change(mpol=d["mpol"] - 1))
    if d["ntor"]:
        trial("fewer toroidal modes", a, change(ntor=d["ntor"] - 1))
        trial("more toroidal modes", a, change(ntor=d["ntor"] + 1))
    ns = d["ns_array"][-1]
    trial("another radial grid", a, change(ns_array=[ns + 2]))
    trial("another first radial grid", a, change(ns_array=[5, ns], ftol_array=[1e-8, 1e-10], niter_array=[900, 900]))
    if not d.get("lasym"):
        e = copy.deepcopy(d)
        e = I.asymmetrise(e, np.random.default_rng(1), 0.01)
        trial("asymmetric input, symmetric state", a, I.mk(e))
    else:
        e = copy.deepcopy(d)
        e["lasym"] = False
        for k in ("rbs", "zbc", "raxis_s", "zaxis_c"):
            e.pop(k, None)
        trial("symmetric input, asymmetric state", a, I.mk(e))
    # arrays that do not have the stated size
    for q, cut in (("rmnc", np.s_[:-1]), ("zmns", np.s_[:, :-1]), ("lmns_full", np.s_[:2]), ("rmnc", np.s_[:0])):
        w = a.wout.model_copy(deep=True)
        setattr(w, q, np.array(np.asarray(getattr(w, q))[cut]))
        trial(f"truncated {q}{cut}", a.model_copy(update={"wout": w}), vi)
    if d.get("lasym"):
        for q in ("rmns", "zmnc", "lmnc_full"):
            w = a.wout.model_copy(deep=True)
            setattr(w, q, np.array(np.asarray(getattr(w, q))[:-1]))
            trial(f"truncated {q}", a.model_copy(update={"wout": w}), vi)
    # and the unmodified pair still works
    b = work.solve(d, True, restart_from=a, **kw)
    n += 1
    if int(b.wout.itfsq) > 200:
        viol.append({"key": f"after-refusals/{name}", "msg": "valid restart no longer immediate after refused ones"})
    return {"viol": viol, "evaluations": n, "states": states, "counters": {"refused restarts": n - 1}}


def main(ctx):
    ctx.package()
    T = ctx.thorough
    cases = []
    canon = [c for c in work.CANONICAL + work.FREE if T or c != "cma"]
    for i, s in enumerate(work.specs(ctx, 150 if T else 40, canon=canon)):
        cases.append({"fn": "self_restart", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": i, "threads": 1 + i % 4})
    for i, s in enumerate(work.specs(ctx, 120 if T else 24, canon=[c for c in canon if c not in ("cma", "solovev_multi", "cth_spline", "fb_cth_lasym")])):
        cases.append({"fn": "modified", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": i})
    for nme in ("solovev", "up_down_asym", "li383", "li383_lasym", "fb_solovev", "fb_cth"):
        cases.append({"fn": "refused", "tag": nme, "name": nme})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=400)
    return ctx.finish(
        "exploration",
        "a state is a kind of restart (self via object/file/text, kind of modification, kind of mismatch) with an input feature signature",
        ["modified problems are converged to 1e-16 (free boundary 1e-13) and compared with angle-insensitive measures; limits as in C12",
         "a modified problem whose cold or hot run does not converge is counted, not judged"],
        min_evaluations=500, min_states=60)
