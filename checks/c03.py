"""C03: valid inputs never cause memory errors or undefined behaviour.

The real solver, bindings and Python layer run in an AddressSanitizer +
UndefinedBehaviorSanitizer build with library and Eigen assertions, over shipped,
random and extreme-but-legal inputs and over all API entry points.  A second
monitor runs the plain build twice with differently filled fresh memory: outputs
that depend on it reveal reads of memory that was never written."""
import hashlib
import os
import shutil
import subprocess

import numpy as np

from vplib import inputs as I, work

PROFILES = {
    "pmass": ["power_series", "two_power", "gauss_trunc", "two_lorentz", "pedestal", "rational", "cubic_spline",
              "akima_spline", "line_segment", "two_power_gs"],
    "piota": ["power_series", "sum_atan", "rational", "nice_quadratic", "cubic_spline", "akima_spline",
              "line_segment"],
    "pcurr": ["power_series", "power_series_i", "two_power", "gauss_trunc", "two_power_gs", "sum_atan", "pedestal",
              "rational", "cubic_spline_i", "cubic_spline_ip", "akima_spline_i", "akima_spline_ip",
              "line_segment_i", "line_segment_ip"],
}


def extreme(rng, k):
    """a legal input at the edge of the resolution range"""
    name = str(rng.choice(["solovev", "cth_like_fixed_bdy", "up_down_asym", "cth_lasym", "circular_tokamak",
                           "li383_low_res"]))
    d = work.canonical("cth_lasym") if name == "cth_lasym" else I.base(name)
    mpol = int(rng.choice([2, 2, 3, 4, 5, 12])) if name in ("solovev", "up_down_asym", "circular_tokamak") else \
        int(rng.choice([2, 3, 4, 5, 8]))
    three = bool(d["ntor"])
    ntor = int(rng.choice([0, 1, 1, 2, 3, 7])) if three else int(rng.choice([0, 0, 0, 1]))
    d["mpol"], d["ntor"] = mpol, ntor
    for q in ("rbc", "zbs", "rbs", "zbc"):
        if q in d:
            d[q] = [c for c in d[q] if c["m"] < mpol and abs(c["n"]) <= ntor]
    for q in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if q in d:
            d[q] = (list(d[q]) + [0.0] * (ntor + 1))[:ntor + 1]
    d["nfp"] = int(rng.choice([1, 2, 5, 12, 31]))
    d["ntheta"] = int(rng.choice([0, 1, 2, 3, 2 * mpol + 5, 2 * mpol + 6, 2 * mpol + 7, 2 * mpol + 8, 41]))
    d["nzeta"] = int(rng.choice([0, 1, 2, 3, 2 * ntor + 3, 2 * ntor + 4, 2 * ntor + 5, 16, 20, 23]))
    ns = [int(x) for x in rng.choice([3, 3, 4, 5, 6, 8, 40], int(rng.choice([1, 1, 2, 3])))]
    ns = sorted(ns)
    n = int(rng.choice([1, 2, 3, 12, 60]))
    I.multi(d, ns, float(rng.choice([1e-4, 1e-8, 1e-14])), n)
    d["nstep"] = int(rng.choice([1, 10, 1000]))
    d["return_outputs_even_if_not_converged"] = True
    d["delt"] = float(rng.choice([0.1, 0.9, 1.0]))
    if rng.random() < 0.3:
        d["phiedge"] = -d["phiedge"]
    if rng.random() < 0.2:
        d["lforbal"] = True
    if rng.random() < 0.3:
        d["mpol_geometry"] = int(rng.integers(1, mpol + 1))
    if rng.random() < 0.3:
        d["ntor_geometry"] = int(rng.integers(0, ntor + 1))
    if rng.random() < 0.3:
        d.pop("raxis_c", None)
        d.pop("zaxis_s", None)
        d.pop("raxis_s", None)
        d.pop("zaxis_c", None)
    if rng.random() < 0.3:
        # a boundary that needs the axis guess and its retries
        d["raxis_c"] = [0.2 * x for x in d.get("raxis_c", [1.0] + [0.0] * ntor)]
    if rng.random() < 0.3:
        d["gamma"] = float(rng.choice([0.0, 5 / 3, 2.0]))
    d = profile(d, rng) if rng.random() < 0.6 else d
    d["iteration_style"] = str(rng.choice(["vmec_8_52", "parvmec"])) if rng.random() < 0.5 else d.get("iteration_style", "vmec_8_52")
    return d


def profile(d, rng):
    m = str(rng.choice(PROFILES["pmass"]))
    d["pmass_type"] = m
    nk = int(rng.choice([4, 5, 20, 101]))
    xs = np.linspace(0, 1, nk)
    d["am"] = [float(x) for x in np.abs(rng.uniform(0.1, 1.0, int(rng.choice([1, 4, 9, 21]))))]
    if m in ("two_power", "two_power_gs", "gauss_trunc", "two_lorentz", "pedestal", "rational"):
        d["am"] = [float(x) for x in rng.uniform(0.3, 1.5, 21)]
    if "spline" in m or "segment" in m:
        d["am_aux_s"], d["am_aux_f"] = xs.tolist(), (1 - xs**2).tolist()
    d["pres_scale"] = 1.0
    if rng.random() < 0.5 and d.get("bloat", 1.0) == 1.0:
        t = str(rng.choice(PROFILES["piota"]))
        d["ncurr"], d["piota_type"] = 0, t
        d["ai"] = [float(x) for x in rng.uniform(0.2, 0.6, int(rng.choice([3, 9, 21])))]
        d["ai_aux_s"], d["ai_aux_f"] = xs.tolist(), (0.4 + 0.3 * xs).tolist()
    else:
        t = str(rng.choice(PROFILES["pcurr"]))
        d["ncurr"], d["pcurr_type"] = 1, t
        d["ac"] = [float(x) for x in rng.uniform(0.2, 1.2, int(rng.choice([4, 9, 21])))]
        d["ac_aux_s"], d["ac_aux_f"] = xs.tolist(), (1 - 0.5 * xs).tolist()
        d["curtor"] = 1e3
    return d


def case_run(spec, threads, entry):
    import vmecpp
    from vmecpp.cpp import _vmecpp
    if "xseed" in spec:
        d = extreme(np.random.default_rng([spec["xseed"], spec["i"], 3]), spec["i"])
    else:
        d, _, _ = work.spec_to_input(spec)
        if spec.get("short"):
            d["niter_array"] = [spec["short"]] * len(d["niter_array"])
            d["return_outputs_even_if_not_converged"] = True
    cnt = {}
    st = [work.describe(d) + f"/thr{threads}/{entry}"]
    work_dir = os.path.abspath("c03")
    shutil.rmtree(work_dir, ignore_errors=True)
    os.makedirs(work_dir)
    try:
        out = work.solve(d, False, threads)
        cnt["completed runs"] = 1
        if entry == "save":
            out.wout.save(f"{work_dir}/wout.nc")
            vmecpp.VmecWOut.from_wout_file(f"{work_dir}/wout.nc")
            out.input.save(f"{work_dir}/in.json")
            vmecpp.VmecInput.from_file(f"{work_dir}/in.json")
            cnt["saved and loaded"] = 1
        elif entry == "restart":
            dd = {k: v for k, v in d.items()}
            ns = int(out.wout.ns)
            I.single(dd, ns, 1e-8, 20)
            dd["return_outputs_even_if_not_converged"] = True
            work.solve(dd, False, max(1, threads - 1), restart_from=out)
            cnt["restarted"] = 1
        elif entry == "interp":
            dd = {k: v for k, v in d.items() if k != "_coils"}
            rng = np.random.default_rng([len(st[0]), 5])
            I.single(dd, int(rng.choice([3, 5, 9, 30])), 1e-8, 5)
            dd["return_outputs_even_if_not_converged"] = True
            vi = I.mk(dd)
            src = vmecpp.interpolate_solution(out, vi)
            kw = {}
            if "_coils" in d:
                from vplib import freeb
                kw["magnetic_field"] = freeb.table(d["_coils"][0], **d["_coils"][1])
            vmecpp.run(vi, verbose=False, max_threads=threads, restart_from=src, **kw)
            cnt["interpolated"] = 1
        elif entry == "h5":
            dd = {k: v for k, v in d.items() if k != "_coils"}
            kw = {}
            if "_coils" not in d:
                oq = _vmecpp.run(I.mk(dd)._to_cpp_vmecindata(), max_threads=threads, verbose=_vmecpp.OutputMode.SILENT)
                oq.save(f"{work_dir}/o.h5")
                _vmecpp.OutputQuantities.load(f"{work_dir}/o.h5")
                cnt["archived"] = 1
        elif entry == "model":
            dd = {k: v for k, v in d.items() if k != "_coils"}
            if not dd.get("lfreeb"):
                ind = I.mk(dd)._to_cpp_vmecindata()
                ns = int(dd["ns_array"][0])
                m = _vmecpp.VmecModel.create(ind, ns)
                for it in range(1, 4):
                    m.evaluate(it, 1)
                    m.perform_time_step(0.5, 0.5, 0.1)
                m.save_backup()
                m.reset_to_initial_guess()
                m.evaluate(2, 2)
                v = np.random.default_rng(1).standard_normal(len(m.get_state()))
                if m.restart_reason != 2:
                    m.apply_preconditioner(v)
                    m.hessian_vector_product(v)
                m.restore_backup()
                m.zero_velocity()
                m.get_forces()
                m.recompute_axis()
                m.reinitialize()
                m.evaluate(1, 1)
                m.refine_to(ns * 2 - 1)
                m.evaluate(2, 2)
                m.get_state()
                m.solve()
                cnt["model driven"] = 1
    except work.Skip as e:
        cnt["stopped: " + str(e)[:40]] = 1
    except Exception as e:      # noqa: BLE001  (exceptions are other properties' business)
        cnt[f"exception {type(e).__name__}: {str(e)[:40]}"] = 1
    shutil.rmtree(work_dir, ignore_errors=True)
    return {"evaluations": 1, "states": st, "counters": cnt}


def case_io(seed, i):
    """makegrid, coil files, profile helpers, conversions"""
    import vmecpp
    from vmecpp import _free_boundary as fb
    from vplib import freeb
    rng = np.random.default_rng([seed, i, 31])
    name = ["solovev", "cth_like"][i % 2]
    kw = {"nr": int(rng.choice([2, 3, 8])), "nphi": int(rng.choice([1, 2, 3, 4, 8])), "norm": bool(rng.integers(2)),
          "sym": bool(rng.integers(2))}
    cnt = {}
    try:
        t = freeb.table(name, **kw)
        cnt["tables"] = 1
        d = work.canonical("fb_solovev" if i % 2 == 0 else "fb_cth")
        d["nzeta"] = int(rng.choice([kw["nphi"], 2 * kw["nphi"], d["nzeta"]]))
        d.pop("_coils")
        d["niter_array"] = [15]
        d["return_outputs_even_if_not_converged"] = True
        vmecpp.run(I.mk(d), magnetic_field=t, verbose=False, max_threads=int(rng.choice([1, 3])))
        cnt["free-boundary runs"] = 1
    except Exception as e:      # noqa: BLE001
        cnt[f"exception {type(e).__name__}: {str(e)[:60]}"] = 1
    return {"evaluations": 1, "states": [f"io/{name}/{sorted(kw.items())}"], "counters": cnt}


def case_fill(spec):
    """digest of everything a run returns"""
    if "xseed" in spec:
        d = extreme(np.random.default_rng([spec["xseed"], spec["i"], 3]), spec["i"])
    else:
        d, _, _ = work.spec_to_input(spec)
        if spec.get("short"):
            d["niter_array"] = [spec["short"]] * len(d["niter_array"])
            d["return_outputs_even_if_not_converged"] = True
    dig = {}
    try:
        out = work.solve(d, False, 1)
        for part in ("wout", "jxbout", "mercier", "threed1_first_table"):
            o = getattr(out, part)
            for k in type(o).model_fields:
                v = getattr(o, k)
                if isinstance(v, (np.ndarray, float, int, list)):
                    dig[f"{part}.{k}"] = hashlib.sha1(np.ascontiguousarray(np.asarray(v)).tobytes()).hexdigest()[:12]
    except work.Skip as e:
        dig["stopped"] = str(e)
    except Exception as e:      # noqa: BLE001
        dig["exception"] = f"{type(e).__name__}: {e}"
    return {"evaluations": len(dig), "sample": None, "digest": dig, "states": ["fill/" + work.describe(d)]}


ENTRIES = ["save", "restart", "interp", "h5", "model"]


def main(ctx):
    ctx.package("asan")
    ctx.package("rel")
    cases = []
    canon = work.CANONICAL + work.FREE
    nx, nr = (3000, 80) if ctx.thorough else (400, 10)
    for j, s in enumerate(work.specs(ctx, nr, canon=canon)):
        s = dict(s)
        if not ctx.thorough:
            s["short"] = 150
        cases.append({"fn": "case_run", "tag": s.get("canon", "random"), "spec": s, "threads": [1, 3, 2, 5][j % 4],
                      "entry": ENTRIES[j % 5]})
    for i in range(nx):
        cases.append({"fn": "case_run", "tag": "extreme", "spec": {"xseed": ctx.seed, "i": i},
                      "threads": [1, 2, 3, 16][i % 4], "entry": ENTRIES[(i // 4) % 5]})
    for i in range(150 if ctx.thorough else 24):
        cases.append({"fn": "case_io", "tag": "io", "seed": ctx.seed, "i": i})
    fills = [{"fn": "case_fill", "tag": s.get("canon", "random"), "spec": {**s, "short": 150}}
             for s in work.specs(ctx, 30 if ctx.thorough else 6, canon=canon)]
    fills += [{"fn": "case_fill", "tag": "extreme", "spec": {"xseed": ctx.seed, "i": i}}
              for i in range(1500 if ctx.thorough else 150)]
    if getattr(ctx, "only", None):
        cases = [ctx.only] if ctx.only["fn"] != "case_fill" else []
        fills = [ctx.only] if ctx.only["fn"] == "case_fill" else []
    ctx.run_cases(cases, env=ctx.env("asan"), on_timeout="inconclusive", timeout=300)
    res = {}
    for byte in (0, 85, 254):
        res[byte] = ctx.run_cases(fills, env=ctx.env("rel", MALLOC_PERTURB_=byte), on_timeout="inconclusive",
                                  timeout=240)
    for j, c in enumerate(fills):
        rs = [res[b][j] for b in res]
        if any(r["kind"] != "ok" for r in rs):
            continue
        ds = [r["digest"] for r in rs]
        keys = sorted({k for d in ds for k in d if any(e.get(k) != d[k] for e in ds)})
        ctx.count("output fields compared under three memory fills", len(ds[0]))
        for k in keys[:3]:
            ctx.violation(f"uninitialised/{k}", f"{k} depends on the contents of fresh memory ({c['tag']})",
                          {"case": c, "fields": keys, "values": [d.get(k) for d in ds]})
    return ctx.finish(
        "exploration",
        "sanitizer and assertion reports of an instrumented build; outputs independent of the contents of fresh memory",
        ["the netCDF, HDF5, BLAS/LAPACK and Python libraries are not instrumented",
         "uninitialised reads are seen only when they change an output"],
        min_evaluations=100, min_states=60)
