"""C01: results do not depend on threads, verbosity or earlier runs.

Monitor: complete outputs (all records, ~250 members) of repeated runs of the
same input are compared: single-threaded repetitions (after other, failing and
differently sized runs in the same process, and with every progress mode)
bit for bit, different thread counts up to round-off."""
import os

import numpy as np

from vplib import inputs as I, outs, work

RES = ("force_residual_r", "force_residual_z", "force_residual_lambda")


def floors(o):
    w = o.wout
    b = 1e-4 * float(np.max(np.abs(w.bvco)))
    A = b * 2 * np.pi / (4e-7 * np.pi)
    ns = int(w.ns)
    f = {"wout.buco": b, "threed1_first_table.buco_full": b, "mercier.toroidal_current": b * 6,
         "mercier.d_toroidal_current_d_s": b * 6 * ns, "threed1_first_table.avg_jsupv": A * ns, "wout.jcurv": A * ns,
         "wout.ctor": A, "threed1_geometric_magnetic.toroidal_current": A, "threed1_geometric_magnetic.yinden": 1.0,
         "wout.jcuru": A * ns, "threed1_first_table.avg_jsupu": A * ns}
    for k in ("lmns", "lmns_full", "lmnc", "lmnc_full"):
        f["wout." + k] = 1e-3
    for k in outs.flat(o):
        if "bsub" in k and "mn" in k:
            f[k] = b
        if k.startswith("wout.curr"):
            f[k] = A * ns
    return f


def compare(a, b, key, viol, tag):
    """different schedules / thread counts: equal up to amplified round-off"""
    na, nb = int(a.wout.itfsq), int(b.wout.itfsq)
    n = min(12, na, nb)
    worst = 0.0
    for k in RES:
        x, y = np.asarray(getattr(a.wout, k), float)[:n], np.asarray(getattr(b.wout, k), float)[:n]
        e = float(np.max(np.abs(x - y) / (np.abs(x) + 1e-25)))
        worst = max(worst, e)
        if not e < 1e-6:
            j = int(np.argmax(np.abs(x - y) / (np.abs(x) + 1e-25)))
            viol.append({"key": f"{key}/history/{tag}", "msg": f"{k} of iteration {j + 1} differs by {e:.1e} (relative)",
                         "detail": [float(x[j]), float(y[j])]})
            break
    if abs(na - nb) > max(4, 0.03 * na):
        viol.append({"key": f"{key}/iterations/{tag}", "msg": f"{na} against {nb} iterations"})
    same = na == nb
    d = outs.diff(a, b, skip=("input.", "wout.fsq", "wout.force_res", "wout.wdot", "wout.itfsq", "wout.niter", "wout.restart",
                              "wout.mnyq") + (() if same else ("wout.equif", "jxbout.a", "jxbout.jxb", "threed1_first_table.radial")),
                  floor=floors(a))
    lim = 1e-4 if same else 2e-2
    for k, e in sorted(d.items(), key=lambda kv: -kv[1])[:3]:
        if not e < lim:
            viol.append({"key": f"{key}/{k}/{tag}", "msg": f"{k} differs by {e:.1e} (relative to its maximum)"})
    fa, fb = outs.flat(a), outs.flat(b)
    for k, v in fa.items():
        if isinstance(v, (str, bool)) and not k.startswith("input.") and fb[k] != v:
            viol.append({"key": f"{key}/{k}/{tag}", "msg": f"{k} differs"})
    return len(d) + 4, worst


def threads(spec, counts):
    d, tag, must = work.spec_to_input(spec)
    try:
        a = work.solve(d, must, 1)
    except work.Skip as e:
        # a failing run must fail with every thread count
        viol = []
        for t in counts[:2]:
            try:
                work.solve(d, False, t)
                viol.append({"key": f"threads/failure/{tag}", "msg": f"fails with one thread, succeeds with {t}"})
            except work.Skip:
                pass
        return {"viol": viol if "Completed" not in str(e) else [], "skip": str(e), "evaluations": 1}
    viol, n, wmax = [], 0, 0.0
    for t in counts:
        b = work.solve(d, True, t)
        k, wst = compare(a, b, f"threads{'>ns' if t >= min(d['ns_array']) else ''}", viol, tag)
        n += k
        wmax = max(wmax, wst)
    return {"viol": viol, "evaluations": n, "counters": {"thread comparisons": len(counts)},
            "states": [f"{work.describe(d)} T{t}" for t in counts],
            "sample": {"input": work.describe(d), "threads": counts, "largest early residual difference": wmax}}


def disturb(kind, rng):
    """something else in the same process"""
    import vmecpp
    if kind == "fail":          # cannot converge
        d = work.canonical("solovev")
        d["niter_array"] = [3]
        try:
            vmecpp.run(I.mk(d), verbose=False, max_threads=2)
        except RuntimeError:
            pass
    elif kind == "badjac":      # hopeless boundary: Jacobian cannot be made regular
        d = work.canonical("solovev")
        I.set_coef(d, "rbc", 1, 0, 1e-3)
        I.set_coef(d, "rbc", 2, 0, 1.0)
        try:
            vmecpp.run(I.mk(d), verbose=False, max_threads=1)
        except RuntimeError:
            pass
    elif kind == "invalid":
        d = work.canonical("solovev")
        d["mpol"] = 0
        try:
            vmecpp.run(I.mk(d), verbose=False)
        except Exception:
            pass
    elif kind == "free":
        work.solve(work.canonical("fb_solovev"), True, 2)
    elif kind == "asym":
        work.solve(work.canonical("li383_lasym"), True, 3)
    else:
        work.solve(work.canonical("solovev_multi"), True, 1)


def history(spec, seed, i):
    """same call, same process, bit for bit"""
    import vmecpp
    rng = np.random.default_rng([seed, i, 1])
    d, tag, must = work.spec_to_input(spec)
    d = dict(d)
    kw = {}
    if d.get("_coils"):
        from vplib import freeb
        c = d.pop("_coils")
        kw["magnetic_field"] = freeb.table(c[0], **c[1])
    vi = I.mk(d)
    try:
        a = vmecpp.run(vi, verbose=False, max_threads=1, **kw)
    except RuntimeError as e:
        return {"skip": str(e)[:60], "evaluations": 0}
    viol, n, states = [], 0, []
    kinds = list(rng.permutation(["fail", "badjac", "invalid", "free", "asym", "multi"]))[:3]
    for kind in kinds:
        disturb(kind, rng)
        b = vmecpp.run(vi, verbose=False, max_threads=1, **kw)
        bad = outs.identical(a, b)
        n += 1
        states.append(f"after {kind} {work.describe(d)}")
        if bad:
            viol.append({"key": f"history/{kind}/{tag}", "msg": f"repeating the call after '{kind}' changed {len(bad)} members",
                         "detail": bad[:20]})
    for mode in (1, 2, 3, vmecpp.OutputMode.LEGACY):
        b = vmecpp.run(vi, verbose=mode, max_threads=1, **kw)
        bad = outs.identical(a, b)
        n += 1
        states.append(f"verbose {mode} {work.describe(d)}")
        if bad:
            viol.append({"key": f"verbose/{mode}/{tag}", "msg": f"progress mode {mode} changed {len(bad)} members", "detail": bad[:20]})
    # environment-chosen thread count
    b = vmecpp.run(vi, verbose=False, max_threads=None, **kw)
    k, _ = compare(a, b, "threads-default", viol, tag)
    return {"viol": viol, "evaluations": n + k, "counters": {"history comparisons": n}, "states": states}


def repeat(spec, t, times):
    """the same parallel run again and again under load"""
    d, tag, must = work.spec_to_input(spec)
    try:
        a = work.solve(d, must, t)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    viol, n = [], 0
    for _ in range(times):
        b = work.solve(d, True, t)
        k, _w = compare(a, b, "repeat", viol, tag)
        n += k
    return {"viol": viol, "evaluations": n, "counters": {"parallel repetitions": times}, "states": [f"{work.describe(d)} repeat T{t}"]}


def main(ctx):
    ctx.package()
    nr = 300 if ctx.thorough else 60
    sp = work.specs(ctx, nr, canon=work.CANONICAL + work.FREE)
    cases = []
    sets = [[2, 5], [3, 8], [4, 40], [7, 2], [6, 3]]
    for i, s in enumerate(sp):
        if s.get("canon") == "cma" and not ctx.thorough:
            cases.append({"fn": "threads", "tag": "cma", "spec": s, "counts": [5]})
            continue
        cases.append({"fn": "threads", "tag": s.get("canon", "random"), "spec": s, "counts": sets[i % 5]})
    hist = ["solovev_multi", "up_down_asym", "li383_lasym", "li383_odd", "fb_solovev", "fb_cth", "fb_cth_lasym", "circular_tokamak"]
    for i, n in enumerate(hist):
        cases.append({"fn": "history", "tag": n, "spec": {"canon": n}, "seed": ctx.seed, "i": i})
    for i in range(60 if ctx.thorough else 8):
        cases.append({"fn": "history", "tag": "random", "spec": {"seed": ctx.seed, "i": 500 + i, "opts": i % 2}, "seed": ctx.seed, "i": 100 + i})
    for n, t in (("li383_lasym", 4), ("fb_cth", 5), ("fb_solovev", 3), ("solovev_multi", 8), ("cth_lasym", 3)):
        cases.append({"fn": "repeat", "tag": n, "spec": {"canon": n}, "t": t, "times": 30 if ctx.thorough else 5})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    env = ctx.env(threads=3)
    ctx.run_cases(cases, env=env, on_timeout="violation", timeout=300)
    return ctx.finish(
        "exploration",
        "a state is an input feature signature together with a thread count, progress mode or preceding call; complete outputs are compared",
        ["single-threaded repetitions are compared bit for bit; different thread counts at 1e-4 relative (observed below 1e-5), "
         "early residuals at 1e-6", "thread scheduling is that of the OS on an oversubscribed machine"],
        min_evaluations=2000, min_states=60)
