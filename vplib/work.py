"""Workload shared by the behavioural checks: which equilibria to compute and
how to run them."""
import copy

import numpy as np

from vplib import inputs as I


class Skip(Exception):
    pass


class Unexpected(Exception):
    """The system under test failed on an input it must handle."""


def rng_for(seed, *salt):
    return np.random.default_rng([int(seed)] + [sum(ord(ch) << (8 * (i % 3)) for i, ch in enumerate(str(x))) for x in salt])


def canonical(name):
    """Named inputs that must converge."""
    if name == "solovev":
        return I.single(I.base("solovev"), 11, 1e-14)
    if name == "solovev_multi":
        return I.multi(I.base("solovev"), [5, 11, 21], [1e-12, 1e-12, 1e-14])
    if name == "solovev_analytical":
        d = I.base("solovev_analytical")
        return I.single(d, 11, 1e-12)
    if name == "circular_tokamak":
        return I.single(I.base("circular_tokamak"), 13, 1e-13)
    if name == "up_down_asym":
        return I.single(I.base("up_down_asym"), 11, 1e-12)
    if name == "cth":
        return I.single(I.base("cth_like_fixed_bdy"), 15, 1e-10, 6000)
    if name == "cth_spline":
        return I.single(I.base("cth_like_fixed_bdy_spline_pressure"), 15, 1e-10, 6000)
    if name == "cth_lasym":
        d = I.base("cth_like_fixed_bdy")
        d["mpol"], d["ntor"] = 5, 3
        for k in ("rbc", "zbs"):
            d[k] = [c for c in d[k] if c["m"] < 5 and abs(c["n"]) <= 3]
        for k in ("raxis_c", "zaxis_s"):
            d[k] = d[k][:4]
        d = I.asymmetrise(d, np.random.default_rng(5), 0.1)
        d["nzeta"] = 12
        return I.single(d, 9, 1e-10, 6000)
    if name == "li383":
        return I.single(I.base("li383_low_res"), 12, 1e-10, 6000)
    if name == "li383_lasym":
        d = li383_small()
        d = I.asymmetrise(d, np.random.default_rng(1), 0.1)
        return I.single(d, 9, 1e-10, 6000)
    if name == "li383_odd":
        d = li383_small()
        d["nzeta"], d["ntheta"] = 13, 17
        return I.single(d, 9, 1e-10, 6000)
    if name in ("cth_fft", "cth_fft_lasym", "li383_fft"):
        # sizes for which the toroidal transforms use the generated FFT kernels
        d = I.base("cth_like_fixed_bdy" if name[0] == "c" else "li383_low_res")
        d["mpol"], d["ntor"] = 6, 3
        d["nzeta"] = {"cth_fft": 16, "cth_fft_lasym": 20, "li383_fft": 16}[name]
        for k in ("rbc", "zbs"):
            d[k] = [c for c in d[k] if c["m"] < 6 and abs(c["n"]) <= 3]
        for k in ("raxis_c", "zaxis_s"):
            d[k] = d[k][:4]
        if name == "cth_fft_lasym":
            d = I.asymmetrise(d, np.random.default_rng(6), 0.1)
        return I.single(d, 9, 1e-10, 6000)
    if name == "cma":
        d = I.base("cma")
        return I.multi(d, [15, 31], [1e-10, 1e-10], 6000)
    if name == "fb_solovev":
        d = I.base("solovev_free_bdy")
        d["mpol"] = 6
        d["_coils"] = ["solovev", {}]
        return I.single(d, 11, 1e-11)
    if name == "fb_cth":
        d = fb_cth()
        d["_coils"] = ["cth_like", {"nphi": 12}]
        return I.single(d, 9, 1e-10)
    if name == "fb_cth_odd":
        d = fb_cth()
        d["nzeta"], d["ntheta"] = 11, 17
        d["_coils"] = ["cth_like", {"nphi": 11, "sym": False}]
        return I.single(d, 9, 1e-10)
    if name == "fb_cth_lasym":
        d = fb_cth()
        d["lasym"] = True
        d["_coils"] = ["cth_like", {"nphi": 12, "sym": False}]
        d["raxis_s"], d["zaxis_c"] = [0.0] * 4, [0.0] * 4
        d["rbs"] = [{"m": 1, "n": 0, "value": 1e-3}]
        d["zbc"] = [{"m": 1, "n": 0, "value": -1e-3}]
        return I.single(d, 9, 1e-9)
    raise KeyError(name)


def fb_cth():
    d = I.base("cth_like_free_bdy")
    d["nzeta"], d["mpol"], d["ntor"] = 12, 4, 3
    for k in ("rbc", "zbs"):
        d[k] = [c for c in d[k] if c["m"] < 4 and abs(c["n"]) <= 3]
    for k in ("raxis_c", "zaxis_s"):
        d[k] = d[k][:4]
    return d


def li383_small(mpol=4, ntor=3):
    d = I.base("li383_low_res")
    d["mpol"], d["ntor"] = mpol, ntor
    for k in ("rbc", "zbs"):
        d[k] = [c for c in d[k] if c["m"] < mpol and abs(c["n"]) <= ntor]
    for k in ("raxis_c", "zaxis_s"):
        d[k] = d[k][:ntor + 1]
    return d


CANONICAL = ["solovev", "solovev_multi", "solovev_analytical", "circular_tokamak", "up_down_asym",
             "cth", "cth_spline", "cth_lasym", "li383", "li383_lasym", "li383_odd", "cth_fft", "cth_fft_lasym", "li383_fft", "cma"]
FREE = ["fb_solovev", "fb_cth", "fb_cth_odd", "fb_cth_lasym"]


def spec_to_input(spec):
    """spec: {"canon": name} | {"seed": int, "i": int, ...} -> (dict, tag, must)"""
    if "canon" in spec:
        d = canonical(spec["canon"])
        tag = spec["canon"]
        must = True
    else:
        rng = np.random.default_rng([spec["seed"], spec["i"], 77])
        d, tag = I.fixed_boundary(rng, spec.get("ns"))
        if spec.get("opts"):
            d = I.options(d, rng)
        must = False
    d.update(copy.deepcopy(spec.get("over", {})))
    return d, tag, must


def specs(ctx, n_random, canon=CANONICAL, **kw):
    out = [{"canon": c} for c in canon]
    for i in range(n_random):
        out.append({"seed": ctx.seed, "i": i, "opts": i % 2 == 1, **kw})
    return out


def solve(d, must=False, threads=1, **kw):
    import vmecpp
    if isinstance(d, dict):
        d = dict(d)
        coils = d.pop("_coils", None)
        if coils and "magnetic_field" not in kw:
            from vplib import freeb
            kw["magnetic_field"] = freeb.table(coils[0], **coils[1])
    vi = d if not isinstance(d, dict) else I.mk(d)
    try:
        return vmecpp.run(vi, verbose=False, max_threads=threads, **kw)
    except RuntimeError as e:
        if must:
            raise Unexpected(f"canonical input failed: {e}") from e
        raise Skip(str(e).strip().splitlines()[0][:80] if str(e).strip() else "RuntimeError")


def describe(d):
    """abstract feature signature of an input, for the coverage counts"""
    f = ["asym" if d.get("lasym") else "sym", "3d" if d["ntor"] else "2d",
         "nfp%d" % d["nfp"], "m%d" % d["mpol"], "n%d" % d["ntor"],
         "ns" + "-".join(map(str, d["ns_array"])),
         "t%d" % d.get("ntheta", 0), "z%d" % d.get("nzeta", 0),
         "ncurr%d" % d.get("ncurr", 0), "free" if d.get("lfreeb") else "fixed"]
    for k in ("gamma", "bloat", "spres_ped", "lforbal", "tcon0", "mpol_geometry", "ntor_geometry", "aphi"):
        if d.get(k) not in (None, 0, 0.0, 1.0, False, [], [1.0]):
            f.append(k)
    return "/".join(f)


def crossings(T, rng, per=2, ratio=1.2):
    """From a residual trace T (nstep, 3): tolerances t with an iteration k at which exactly one of the three residuals
    is still above t, and the first iteration j > k at which none is.  Returns [(component, k, j, t)]."""
    T = np.asarray(T, float)
    out = []
    ok = np.all(np.isfinite(T), axis=1)
    for x in range(3):
        other = np.delete(T, x, 1).max(axis=1)
        cand = np.flatnonzero(ok & (T[:, x] > ratio * other) & (other > 0))
        rng.shuffle(cand)
        got = 0
        for k in cand:
            t = float(np.sqrt(T[k, x] * other[k]))
            al = np.flatnonzero((T <= t).all(axis=1))
            if not len(al) or al[0] <= k or t > 0.5:
                continue
            j = int(al[0])
            # clear of round-off
            if np.min(np.abs(T[: j + 1] / t - 1)) < 1e-3:
                continue
            out.append((x, int(k), j, t))
            got += 1
            if got >= per:
                break
    return out
