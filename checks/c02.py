"""C02: the parallel solve is free of data races and always terminates.

The solver runs under ThreadSanitizer on a pthread OpenMP runtime that gives
exactly the ordering OpenMP promises, perturbs the schedule with seeded delays,
and reports barriers that part of the team never reaches."""
import os

import numpy as np

from vplib import inputs as I, work


def case_race(spec, threads, niter, restart=False):
    d, _, _ = work.spec_to_input(spec)
    d["niter_array"] = [niter] * len(d["niter_array"])
    d["return_outputs_even_if_not_converged"] = True
    if spec.get("badaxis"):
        d["raxis_c"] = [0.55 * x for x in d["raxis_c"]]
    if spec.get("only_coils"):
        d["free_boundary_method"] = "only_coils"
        d["pres_scale"], d["curtor"] = 0.0, 0.0
    for k in ("delt", "iteration_style"):
        if k in spec:
            d[k] = spec[k]
    if "ns" in spec:
        I.single(d, spec["ns"], 1e-13, niter)
        d["return_outputs_even_if_not_converged"] = True
    log = os.environ["VP_GOMP_LOG"]
    pos = os.path.getsize(log) if os.path.exists(log) else 0
    cnt = {}
    try:
        out = work.solve(d, False, threads)
        cnt["completed runs"] = 1
        if restart:
            dd = dict(d)
            I.single(dd, int(out.wout.ns), 1e-9, niter)
            dd["return_outputs_even_if_not_converged"] = True
            work.solve(dd, False, threads, restart_from=out)
            cnt["restarts"] = 1
    except work.Skip as e:
        cnt["stopped: " + str(e)[:50]] = 1
    st = [work.describe(d) + f"/thr{threads}"]
    nb = 0
    with open(log) as fh:
        fh.seek(pos)
        for line in fh:
            q = line.split()
            if len(q) == 5:
                cnt["parallel regions"] = cnt.get("parallel regions", 0) + 1
                cnt["barriers"] = cnt.get("barriers", 0) + int(q[1])
                cnt["single sections"] = cnt.get("single sections", 0) + int(q[2])
                cnt["critical sections"] = cnt.get("critical sections", 0) + int(q[3])
                st.append(f"order {q[0]} {q[4]}")
                nb += int(q[1])
    return {"evaluations": nb + 1, "states": st, "counters": cnt}


def case_table(threads, name, nphi, sym):
    """parallel field tabulation"""
    os.environ["OMP_NUM_THREADS"] = str(threads)
    from vplib import freeb
    freeb._cache.clear()
    t = freeb.table(name, nr=9, nphi=nphi, sym=sym)
    b = np.asarray(t.b_p)
    return {"evaluations": 1, "states": [f"table {name} {threads} {b.shape}"], "counters": {"tables": 1}}


def signature(stderr):
    import re
    fr = []
    for block in re.findall(r"WARNING: ThreadSanitizer: .*?(?=\n\n\n|\Z)", stderr, re.S)[:1]:
        for m in re.finditer(r"#\d+ (.+?) (/\S*src/vmecpp/cpp\S*):(\d+)", block):
            fn = re.sub(r"\(.*", "", m.group(1)).split("::")[-1]
            fr.append(fn)
    return "+".join(dict.fromkeys(fr[:4])) or "?"


def handler(ctx, c, r):
    if r["kind"] == "crash":
        t = r["stderr"]
        if "VP_OMP_DEADLOCK" in t:
            ctx.violation(f"deadlock/{c.get('tag')}", "a barrier is not reached by all threads of the team",
                          {"case": c, "stderr": t})
            return True
        if "WARNING: ThreadSanitizer: data race" in t or "ThreadSanitizer: heap-use-after-free" in t:
            ctx.violation(f"race/{signature(t)}", "data race between worker threads: " + signature(t),
                          {"case": c, "stderr": t})
            return True
    return False


def main(ctx):
    ctx.package("tsan")
    cases = []
    canon = [c for c in work.CANONICAL + work.FREE]
    thr = [2, 3, 4, 5, 7, 16]
    n = 0
    for rep in range(6 if ctx.thorough else 1):
        for s in work.specs(ctx, 24 if ctx.thorough else 4, canon=canon):
            s = dict(s)
            free = str(s.get("canon", "")).startswith("fb_")
            for t in ([thr[n % 6], thr[(n + 3) % 6]] if ctx.thorough else [thr[n % 6]]):
                s2 = dict(s)
                s2["badaxis"] = n % 5 == 4 and not free
                # (free-boundary runs need some iterations until the vacuum field is switched on)
                cases.append({"fn": "case_race", "tag": s.get("canon", "random"), "spec": s2, "threads": t,
                              "niter": 60 if ctx.thorough else (45 if free else 12), "restart": n % 3 == 0})
            n += 1
    # vacuum field of the coils alone
    for name in ("fb_cth", "fb_cth_lasym"):
        cases.append({"fn": "case_race", "tag": name + ":only_coils", "spec": {"canon": name, "only_coils": True},
                      "threads": thr[n % 3], "niter": 160})
        n += 1
    # far too large time steps: the solver goes back again and again, and gives up after 75 bad Jacobians
    for name in ["solovev", "li383"] + (["cth", "circular_tokamak", "up_down_asym"] if ctx.thorough else []):
        for style, delt, niter in (("vmec_8_52", 10.0, 60), ("vmec_8_52", 2.5, 60), ("parvmec", 5.0, 120)):
            cases.append({"fn": "case_race", "tag": f"{name}:{style}:{delt}", "threads": thr[n % 4], "niter": niter,
                          "spec": {"canon": name, "ns": 5, "delt": delt, "iteration_style": style}})
            n += 1
    # to convergence, with the extra stage of a multigrid run
    for name in ("solovev_multi", "fb_solovev", "fb_cth") if ctx.thorough else ("solovev_multi", "fb_solovev"):
        cases.append({"fn": "case_race", "tag": name, "spec": {"canon": name}, "threads": 3, "niter": 4000})
    for t in (2, 5):
        for name, nphi, sym in (("solovev", 1, False), ("cth_like", 4, True), ("cth_like", 3, False)):
            cases.append({"fn": "case_table", "tag": name, "threads": t, "name": name, "nphi": nphi, "sym": sym})
    only = getattr(ctx, "only", None)
    seeds = range(ctx.seed * 100, ctx.seed * 100 + (4 if ctx.thorough else 1))
    if only:
        cases = [only]
    for sd in seeds:
        ctx.run_cases(cases, workers=4, env=ctx.env("tsan", VP_SCHED_SEED=sd, VP_GOMP_LOG="gomp.log"),
                      on_timeout="violation", timeout=400, handler=handler)
    return ctx.finish(
        "exploration",
        "ThreadSanitizer reports (happens-before of fork/join, barrier and critical only) and barriers not reached by "
        "the whole team, under seeded schedule perturbation",
        ["races inside BLAS/LAPACK and the NetCDF/HDF5 libraries are not seen",
         "the OpenMP runtime under test is a stand-in with the specification's ordering, not libgomp"],
        min_evaluations=2000, min_states=40)
