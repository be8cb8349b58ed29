"""C06: reported field harmonics follow from the reported geometry.

Monitor: every returned equilibrium of the workload is re-evaluated by an
independent numpy reconstruction (vplib/eq.py) and compared table by table."""
import numpy as np

from vplib import eq, inputs as I, work

TOL = 1e-9
PAIRS = ["gmn", "bmn", "bsupumn", "bsupvmn", "bsubumn", "bsubvmn", "bsubsmn"]
SYM = {"gmn": "c", "bmn": "c", "bsupumn": "c", "bsupvmn": "c", "bsubumn": "c", "bsubvmn": "c", "bsubsmn": "s"}


def expected_modes(mmax, nmax, nfp):
    xm, xn = [], []
    for m in range(mmax + 1):
        for n in range(0 if m == 0 else -nmax, nmax + 1):
            xm.append(m)
            xn.append(n * nfp)
    return np.array(xm), np.array(xn)


def check_output(w, ntheta, nzeta, viol, cnt, tag):
    def bad(key, msg, detail=None):
        viol.append({"key": f"{key}/{tag}", "msg": msg, "detail": detail})
    ns, nfp, mpol, ntor = int(w.ns), int(w.nfp), int(w.mpol), int(w.ntor)
    nt, nz = eq.grid_sizes(mpol, ntor, ntheta, nzeta)
    xm, xn = expected_modes(mpol - 1, ntor, nfp)
    if not (np.array_equal(xm, np.asarray(w.xm)) and np.array_equal(xn, np.asarray(w.xn))
            and int(w.mnmax) == len(xm)):
        bad("modes/geometry", "xm/xn/mnmax do not list every mode of the stated resolution in order")
        return
    mn, nn = nt // 2, nz // 2
    xmn, xnn = expected_modes(mn, nn, nfp)
    if not (np.array_equal(xmn, np.asarray(w.xm_nyq)) and np.array_equal(xnn, np.asarray(w.xn_nyq))
            and int(w.mnmax_nyq) == len(xmn)):
        bad("modes/nyquist", "xm_nyq/xn_nyq/mnmax_nyq do not list every mode of the angular grid")
        return
    cnt["mode tables"] = cnt.get("mode tables", 0) + 4
    R = eq.Recon(w, ntheta, nzeta)
    for base in PAIRS:
        names = [base + SYM[base]] + ([base + ("s" if SYM[base] == "c" else "c")] if w.lasym else [])
        got = {n: np.asarray(getattr(w, n), float) for n in names}
        scale = max(np.max(np.abs(np.nan_to_num(g, nan=0.0, posinf=0, neginf=0))) for g in got.values())
        for n in names:
            exp = R.table(n)
            e = eq.relerr(got[n], exp, max(scale, 1e-300))
            cnt["table values compared"] = cnt.get("table values compared", 0) + int(exp.size)
            if not e < TOL:
                d = np.abs(got[n] - exp) if got[n].shape == exp.shape else None
                ij = np.unravel_index(np.nanargmax(d), d.shape) if d is not None else None
                bad(f"table/{n}", f"{n} differs from the field of the reported geometry by {e:.2e} (relative)",
                    {"error": e, "where_mode_surface": ij and [int(x) for x in ij],
                     "mode": ij and [int(xmn[ij[0]]), int(xnn[ij[0]])],
                     "got": d is not None and float(got[n][ij]), "expected": d is not None and float(exp[ij])})
    for which in ("c", "s") if w.lasym else ("c",):
        cu, cv = eq.currents(w, which)
        for n, exp in (("currumn" + which, cu), ("currvmn" + which, cv)):
            got = np.asarray(getattr(w, n), float)
            if ns <= 3:
                got, exp = got[:, 1:-1], exp[:, 1:-1]
            # the scale of the symmetric current table
            ref = np.asarray(getattr(w, n[:-1] + "c"), float)
            sc = max(float(np.max(np.abs(np.nan_to_num(ref)))), 1e-300)
            e = eq.relerr(got, exp, sc)
            cnt["table values compared"] = cnt.get("table values compared", 0) + int(exp.size)
            if not e < 1e-7:
                bad(f"table/{n}", f"{n} is not the curl of the reported covariant field ({e:.2e} relative)",
                    {"error": e})
    # non-half-mesh axis rules and finiteness
    for n in ("rmnc", "zmns", "lmns", "lmns_full") + (("rmns", "zmnc", "lmnc", "lmnc_full") if w.lasym else ()):
        a = np.asarray(getattr(w, n), float)
        if a.shape != (len(xm), ns) or not np.all(np.isfinite(a)):
            bad(f"shape/{n}", f"{n} has shape {a.shape} or non-finite entries, expected {(len(xm), ns)}")
    # lambda on the half grid follows from lambda on the full grid
    check_lambda(w, bad, cnt)
    if not w.lasym:
        for n in ("rmns", "zmnc", "gmns", "bmns", "bsubumns", "bsubvmns", "bsubsmnc", "bsupumns", "bsupvmns",
                  "currumns", "currvmns", "lmnc"):
            a = getattr(w, n, None)
            if a is not None and np.size(a) and np.any(np.asarray(a) != 0):
                bad(f"asym/{n}", f"{n} is non-zero in a stellarator-symmetric output")


def check_lambda(w, bad, cnt):
    ns = int(w.ns)
    s = np.linspace(0, 1, ns)
    sq, sh = np.sqrt(s), np.sqrt(0.5 * (s[1:] + s[:-1]))
    xm = np.asarray(w.xm, int)
    for half, full in (("lmns", "lmns_full"),) + ((("lmnc", "lmnc_full"),) if w.lasym else ()):
        F = np.asarray(getattr(w, full), float)
        G = np.asarray(getattr(w, half), float)
        odd = xm % 2 == 1
        x = np.where(odd[:, None], F / np.where(sq > 0, sq, 1.0)[None, :], F)
        x[xm == 1, 0] = x[xm == 1, 1]
        x[xm > 1, 0] = 0.0
        x[xm == 0, 0] = x[xm == 0, 1]
        exp = np.zeros_like(G)
        exp[:, 1:] = 0.5 * (x[:, 1:] + x[:, :-1]) * np.where(odd[:, None], sh[None, :], 1.0)
        e = eq.relerr(G, exp)
        cnt["table values compared"] = cnt.get("table values compared", 0) + int(exp.size)
        if not e < TOL:
            bad(f"table/{half}", f"{half} is not the half-grid form of {full} ({e:.2e})")


def case(spec, threads=1):
    d, tag, must = work.spec_to_input(spec)
    try:
        o = work.solve(d, must, threads)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    viol, cnt = [], {"equilibria": 1, f"equilibria ({'asymmetric' if d.get('lasym') else 'symmetric'})": 1}
    check_output(o.wout, d.get("ntheta", 0), d.get("nzeta", 0), viol, cnt, tag)
    return {"viol": viol, "counters": cnt, "evaluations": 12 + 11 * bool(d.get("lasym")),
            "states": [work.describe(d)], "sample": {"input": work.describe(d), "itfsq": int(o.wout.itfsq)}}


def native(spec):
    """the native output object: its own tables, and the Python object made from the same run"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    d, tag, must = work.spec_to_input(spec)
    viol, n = [], 0
    kw, nkw = {}, {}
    c = d.pop("_coils", None)
    if c:
        from vplib import freeb
        kw["magnetic_field"] = freeb.table(c[0], **c[1])
        nkw["magnetic_response_table"] = kw["magnetic_field"]._to_cpp_magnetic_field_response_table()
    vi = I.mk(d)
    try:
        o = work.solve(dict(d, _coils=c) if c else d, must, 1).wout
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    ind = vi._to_cpp_vmecindata()
    if c:
        ind.mgrid_file = "NONE"
    w = _vmecpp.run(ind, max_threads=1, verbose=_vmecpp.OutputMode.SILENT, **nkw).wout
    ns = int(w.ns)
    for f in ("s", "c") if w.lasym else ("s",):
        h = np.asarray(getattr(w, "bsubsmn" + f), float)
        g = np.asarray(getattr(w, f"bsubsmn{f}_full"), float)
        exp = np.zeros_like(h)
        exp[:, 1:-1] = 0.5 * (h[:, 1:-1] + h[:, 2:])
        exp[:, 0] = 2 * exp[:, 1] - exp[:, 2]
        exp[:, -1] = 2 * exp[:, -2] - exp[:, -3]
        if ns <= 3:
            exp, g = exp[:, 1:-1], g[:, 1:-1]
        n += exp.size
        e = eq.relerr(g, exp, max(float(np.max(np.abs(h))), 1e-300))
        if not e < TOL:
            viol.append({"key": f"native/bsubsmn{f}_full/{tag}", "msg": f"bsubsmn{f}_full is not the full-grid form of bsubsmn{f} ({e:.2e})"})
    for k in vmecpp.VmecWOut.model_fields:
        b = getattr(o, k)
        if b is None or not hasattr(w, k):
            continue
        a, b = np.asarray(getattr(w, k)), np.asarray(b)
        n += 1
        same = a.shape == b.shape and (np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b))
        if not same:
            viol.append({"key": f"native/{k}/{tag}", "msg": f"{k} of the Python output differs from the native output of the same run"})
    return {"viol": viol, "counters": {"native values compared": n}, "evaluations": n, "states": ["native " + work.describe(d)]}


def main(ctx):
    ctx.package()
    sp = work.specs(ctx, 1500 if ctx.thorough else 200, canon=work.CANONICAL + work.FREE)
    cases = [{"fn": "case", "tag": s.get("canon", "random"), "spec": s,
              "threads": 1 + (i % 3 == 2) * 2} for i, s in enumerate(sp)]
    cases += [{"fn": "native", "tag": s.get("canon", "random"), "spec": s}
              for s in work.specs(ctx, 200 if ctx.thorough else 12, canon=[c for c in work.CANONICAL + work.FREE if c != "cma"])]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases)
    return ctx.finish(
        "exploration",
        "an equilibrium counts as a distinct non-trivial state by its feature signature (symmetry, dimension, "
        "field periods, resolution, grids, constraint type, options); every value of every reported table is compared",
        ["abscab and absl::log are replaced by shims (not on this path)",
         "grid rules and the half weight of the outermost cosine harmonics are taken as documented conventions"],
        min_evaluations=300, min_states=20)
