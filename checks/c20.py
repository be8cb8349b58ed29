"""C20: the SIMSOPT wrapper and the commands agree with the direct API.

Random histories on the wrapper are followed by a reference model of its own
(coefficients, degrees of freedom, resolution, whether a rerun is due); every
observable of the wrapper is compared with a direct run of the input the
reference model predicts.  The commands are run as processes and their files
compared with the direct call."""
import contextlib
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vplib import inputs as I
from vplib import nc3, outs, work

KINDS = {"rbc": "rc", "zbs": "zs", "rbs": "rs", "zbc": "zc"}


# ---------------------------------------------------------------- inputs

def tweak_axis_n(inp, rng):
    """m=0, n<0 coefficients: the direct run adds them to the n>0 ones"""
    if inp.ntor == 0:
        return
    for n in range(1, inp.ntor + 1):
        for k in ("rbc", "zbs") + (("rbs", "zbc") if inp.lasym else ()):
            a = getattr(inp, k)
            a[0, inp.ntor - n] += 2e-3 * float(rng.standard_normal()) / n


def make_input(kind):
    if kind == "solovev":
        d = I.single(I.base("solovev"), 9, 1e-9)
    elif kind == "solovev_multi":
        d = I.multi(I.base("solovev"), [5, 9], [1e-8, 1e-9])
    elif kind == "lasym":
        d = I.single(I.base("up_down_asym"), 7, 1e-8)
    elif kind == "cth":
        d = I.single(work.canonical("cth"), 7, 1e-7, 3000)
    elif kind == "li383":
        d = I.single(work.li383_small(), 7, 1e-7, 3000)
    elif kind == "cth_lasym":
        d = I.single(work.canonical("cth_lasym"), 7, 1e-6, 3000)
    elif kind == "schedule":
        d = I.multi(I.base("solovev"), [5, 9], [1e-8, 1e-9])
    d = dict(d)
    inp = I.mk(d)
    if kind == "schedule":
        inp.mpol = np.array([4, int(inp.mpol)])
    return inp


def geometry_key(inp):
    """boundary as combined coefficients (m, |n|, parity) so that equivalent representations agree"""
    return inp


# ---------------------------------------------------------------- reference model of the wrapper

class Ref:
    """what the wrapper must hold"""

    def __init__(self, inp):
        self.inp = inp.model_copy(deep=True)
        self.mpol = inp.mpol if isinstance(inp.mpol, int) else int(inp.mpol[-1])
        self.ntor = inp.ntor if isinstance(inp.ntor, int) else int(inp.ntor[-1])
        self.c = {}
        for k in KINDS:
            a = getattr(inp, k)
            if a is None:
                continue
            for m in range(a.shape[0]):
                for j in range(a.shape[1]):
                    n = j - self.ntor
                    v = float(a[m, j])
                    if m == 0 and n < 0:
                        s = -1.0 if k in ("zbs", "rbs") else 1.0
                        self.c[k, 0, -n] = self.c.get((k, 0, -n), 0.0) + s * v
                    else:
                        self.c[k, m, n] = self.c.get((k, m, n), 0.0) + v
        # not degrees of freedom of the boundary object
        self.c.pop(("zbs", 0, 0), None)
        self.c.pop(("rbs", 0, 0), None)

    def input(self, restart=False):
        """input of the direct call"""
        r = self.inp.model_copy(deep=True)
        for k in KINDS:
            if getattr(self.inp, k) is None:
                continue
            a = np.zeros((self.mpol, 2 * self.ntor + 1))
            for (kk, m, n), v in self.c.items():
                if kk == k and m < self.mpol and abs(n) <= self.ntor:
                    a[m, n + self.ntor] = v
            setattr(r, k, a)
        for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            if getattr(r, k) is not None:
                setattr(r, k, np.zeros(self.ntor + 1))
        if restart:
            r.ns_array, r.ftol_array, r.niter_array = r.ns_array[-1:], r.ftol_array[-1:], r.niter_array[-1:]
            r.mpol, r.ntor = self.mpol, self.ntor
        return r


def definitions(w):
    """derived quantities from the output, written down independently"""
    ns = w.ns
    ds = 1.0 / (ns - 1)
    sh = (np.arange(1, ns) - 0.5) * ds
    io = w.iotas[1:]
    slope = float(np.sum((sh - sh.mean()) * (io - io.mean())) / np.sum((sh - sh.mean()) ** 2))
    v = 4 * np.pi**2 * np.abs(w.gmnc[0, 1:])
    v0, v1 = 1.5 * v[0] - 0.5 * v[1], 1.5 * v[-1] - 0.5 * v[-2]
    return dict(aspect=w.aspect, volume=w.volume, iota_axis=w.iotaf[0], iota_edge=w.iotaf[-1],
                mean_iota=float(np.mean(io)), mean_shear=slope, vacuum_well=(v0 - v1) / v0,
                external_current=2 * np.pi * (1.5 * w.bvco[-1] - 0.5 * w.bvco[-2]) / (4e-7 * np.pi))


# ---------------------------------------------------------------- histories

@contextlib.contextmanager
def scratch():
    where = os.path.realpath(tempfile.mkdtemp(prefix="c20."))
    old = os.getcwd()
    try:
        os.chdir(where)
        yield pathlib.Path(where)
    finally:
        os.chdir(old)
        shutil.rmtree(where, ignore_errors=True)


def case_history(kind, seed, n, keep=False, tag=None):
    import vmecpp
    import vmecpp.simsopt_compat as sc
    from simsopt._core.optimizable import Optimizable
    from simsopt._core.util import ObjectiveFailure
    from simsopt.geo.surfacerzfourier import SurfaceRZFourier
    rng = np.random.default_rng([seed, 20])
    case = dict(fn="case_history", kind=kind, seed=seed, n=n, keep=keep)
    viol, states, ops = [], set(), []
    ev = [0]

    def bad(key, msg):
        viol.append(dict(key=f"wrapper/{key}", msg=f"{kind}, after {ops[-5:]}: {msg}", detail=dict(case=case, ops=ops)))

    inp = make_input(kind)
    if rng.integers(2):
        tweak_axis_n(inp, rng)
    real_run = vmecpp.run
    calls, depth = [0], [0]

    def counting(*a, **k):
        if depth[0]:        # a resolution schedule calls run for its stages
            return real_run(*a, **k)
        calls[0] += 1
        depth[0] += 1
        try:
            return real_run(*a, **k)
        finally:
            depth[0] -= 1

    def direct(*a, **k):
        depth[0] += 1
        try:
            return real_run(*a, **k)
        finally:
            depth[0] -= 1

    with scratch() as where:
        name, wname = [("input.case.json", "wout_case.nc"), ("case.json", "wout_case.nc"), ("input_case.json", "wout_input_case.nc"),
                       ("input.a.b.json", "wout_a.b.nc"), ("input.json", "wout_input.nc")][int(rng.integers(5))]
        inp.save(where / name)
        vmecpp.run = counting
        try:
            v = sc.Vmec(str(where / name) if rng.integers(2) else where / name, verbose=False, keep_all_files=keep)
            ref = Ref(inp)
            due, expect_calls, last_out, broken = True, 0, None, None

            def compare(out, want_in, restart_from=None):
                ev[0] += 1
                want = direct(want_in, max_threads=1, verbose=False, restart_from=restart_from)
                d = outs.identical(want.wout, out.wout)
                if d:
                    bad("result", f"the output differs from a direct run in {str(d)[:200]}")
                for k in type(want_in).model_fields:
                    a, b = getattr(want_in, k), getattr(out.input, k)
                    if (a is None) != (b is None) or (a is not None and not np.array_equal(a, b)):
                        bad("transfer", f"{k} passed to the solver differs from the boundary")

            def check_run(restart=None):
                nonlocal due, expect_calls, last_out
                ops.append("restart" if restart is not None else "run")
                was_due = due
                try:
                    v.run(restart_from=restart)
                    got = "ok"
                except ObjectiveFailure:
                    got = "ObjectiveFailure"
                except Exception as e:
                    got = f"{type(e).__name__}: {str(e)[:200]}"
                if was_due:
                    expect_calls += 1
                if calls[0] != expect_calls:
                    bad("rerun_count", f"the solver ran {calls[0]} times, expected {expect_calls}")
                    expect_calls = calls[0]
                if broken is not None and was_due:
                    ev[0] += 1
                    if got != "ObjectiveFailure":
                        bad("failure", f"a run that cannot converge ended with {got}")
                    return False
                if got != "ok":
                    # the same input must fail directly as well
                    try:
                        direct(ref.input(restart is not None), max_threads=1, verbose=False, restart_from=restart)
                    except RuntimeError:
                        if got != "ObjectiveFailure":
                            bad("failure", f"a solver failure was reported as {got}")
                        return False
                    bad("failure", f"{got}, but a direct run succeeds")
                    return False
                if was_due:
                    due = False
                    compare(v.output_quantities, ref.input(restart is not None), restart)
                    last_out = v.output_quantities
                    if keep:
                        f = where / v.output_file if not os.path.isabs(v.output_file) else pathlib.Path(v.output_file)
                        if f.name != wname:
                            bad("file", f"output file of {name} is called {f.name}")
                        w = vmecpp.VmecWOut.from_wout_file(f)
                        if not np.array_equal(w.rmnc, v.wout.rmnc) or w.volume_p != v.wout.volume_p or not np.array_equal(w.iotaf, v.wout.iotaf):
                            bad("file", "the kept file does not hold the current result")
                    elif list(where.glob("wout*")):
                        bad("file", "an output file was written without keep_all_files")
                return True

            def check_queries():
                ops.append("query")
                if not check_run():
                    return
                want = definitions(v.wout)
                for q in rng.permutation(list(want)):
                    ev[0] += 1
                    g = float(getattr(v, str(q))())
                    if not np.isclose(g, want[q], rtol=1e-9, atol=1e-12 * max(1.0, abs(want[q]))):
                        bad("quantity", f"{q}() = {g}, from the output {want[q]}")
                if not np.allclose(v.s_full_grid, np.linspace(0, 1, v.wout.ns), atol=1e-14) or \
                        not np.allclose(v.s_half_grid, (np.arange(1, v.wout.ns) - 0.5) / (v.wout.ns - 1), atol=1e-14) or \
                        abs(v.ds - 1 / (v.wout.ns - 1)) > 1e-14:
                    bad("grid", "radial grids do not match the output")
                if calls[0] != expect_calls:
                    bad("rerun_count", f"queries ran the solver {calls[0] - expect_calls} times although nothing changed")

            OPS = ["coef", "coef", "coef", "surface_x", "dof", "dof_x", "run", "query", "query", "replace", "resize",
                   "restart", "get_input", "fail", "indata", "noop", "bigger_surface"]
            bag = []
            for step in range(n):
                if not bag:     # every operation occurs, in random order
                    bag = [str(x) for x in rng.permutation(OPS)]
                op = bag.pop()
                states.add(f"{kind}:{op}:{due}")
                ops.append(op)
                if op == "coef":
                    keys = [k for k in ref.c if k[1] <= v.boundary.mpol and abs(k[2]) <= v.boundary.ntor]
                    k, m, nn = keys[int(rng.integers(len(keys)))]
                    amp = 3e-3 if m < 2 else 1e-3
                    new = ref.c[k, m, nn] + amp * float(rng.standard_normal()) / (1 + m + abs(nn))
                    getattr(v.boundary, "set_" + KINDS[k])(m, nn, new)
                    ref.c[k, m, nn] = new
                    due = True
                elif op == "surface_x":
                    b = v.boundary
                    names = b.local_full_dof_names
                    x = b.local_full_x.copy()
                    for _ in range(3):
                        i = int(rng.integers(len(x)))
                        x[i] += 5e-4 * float(rng.standard_normal())
                    b.local_full_x = x
                    for nm, val in zip(names, x):
                        kk, mn = nm[:2], nm[3:-1].split(",")
                        key = [q for q, r in KINDS.items() if r == kk][0]
                        ref.c[key, int(mn[0]), int(mn[1])] = float(val)
                    due = True
                elif op in ("dof", "dof_x"):
                    nm = str(rng.choice(["delt", "tcon0", "phiedge", "gamma", "curtor"]))
                    val = {"delt": 0.5 + 0.4 * rng.random(), "tcon0": 0.8 + 0.2 * rng.random(),
                           "phiedge": ref.inp.phiedge * (1 + 0.05 * rng.standard_normal()), "gamma": 0.0 if rng.integers(2) else 0.5,
                           "curtor": ref.inp.curtor * (1 + 0.05 * rng.standard_normal()) + (100.0 if rng.integers(2) else 0.0)}[nm]
                    val = float(val)
                    if getattr(ref.inp, nm) == val:
                        continue
                    if op == "dof":
                        v.set(nm, val)
                    else:
                        x = v.local_full_x.copy()
                        x[["delt", "tcon0", "phiedge", "curtor", "gamma"].index(nm)] = val
                        v.local_full_x = x
                    setattr(ref.inp, nm, val)
                    due = True
                elif op == "run":
                    check_run()
                elif op == "query":
                    check_queries()
                elif op in ("replace", "bigger_surface"):
                    old = v.boundary
                    mp, nt = old.mpol, old.ntor
                    if op == "bigger_surface":
                        mp, nt = mp + 2, nt + (1 if ref.ntor else 0)
                    s = SurfaceRZFourier(nfp=old.nfp, stellsym=old.stellsym, mpol=mp, ntor=nt)
                    for (k, m, nn), val in ref.c.items():
                        if m <= mp and abs(nn) <= nt:
                            getattr(s, "set_" + KINDS[k])(m, nn, val)
                    if op == "bigger_surface":
                        s.set_rc(mp, 0, 0.5)          # beyond the resolution of the run: must not enter it
                        ref.c["rbc", mp, 0] = 0.5
                        for m in range(mp + 1):
                            for nn in range(-nt, nt + 1):
                                for k in KINDS:
                                    if (k in ("rbs", "zbc") and old.stellsym) or (m == 0 and (nn < 0 or (nn == 0 and k in ("zbs", "rbs")))):
                                        continue
                                    ref.c.setdefault((k, m, nn), 0.0)
                    v.boundary = s
                    due = True
                elif op == "resize":
                    if kind == "schedule":
                        continue
                    mp, nt = ref.mpol + int(rng.integers(-1, 2)), ref.ntor
                    if ref.ntor:
                        nt = max(1, ref.ntor + int(rng.integers(-1, 2)))
                    mp = max(mp, 4)
                    dep = Optimizable(depends_on=[v.boundary])
                    v.set_mpol_ntor(mp, nt)
                    if not (len(dep.parents) == 1 and dep.parents[0] is v.boundary):
                        bad("dependants", "after changing the resolution another object that depends on the boundary depends on a stale one")
                    # the boundary object loses coefficients beyond the new resolution
                    ref.c = {q: x for q, x in ref.c.items() if q[1] < mp and abs(q[2]) <= nt}
                    for m in range(mp):
                        for nn in range(-nt, nt + 1):
                            for k in KINDS:
                                if getattr(ref.inp, k) is None or (m == 0 and (nn < 0 or (nn == 0 and k in ("zbs", "rbs")))):
                                    continue
                                ref.c.setdefault((k, m, nn), 0.0)
                    ref.mpol, ref.ntor = mp, nt
                    ref.inp.mpol, ref.inp.ntor = mp, nt
                    due = True
                    last_out = None
                elif op == "restart":
                    if last_out is None or last_out.wout.mpol != ref.mpol or last_out.wout.ntor != ref.ntor:
                        if not check_run():
                            continue
                    if not due:
                        ref.inp.phiedge *= 1.02
                        v.set("phiedge", float(ref.inp.phiedge))
                        due = True
                    check_run(last_out)
                elif op == "get_input":
                    ev[0] += 1
                    if rng.integers(2):
                        t = json.loads(v.get_input())
                    else:
                        v.write_input(where / "written.json")
                        t = json.loads((where / "written.json").read_text())
                        (where / "written.json").unlink()
                    got = vmecpp.VmecInput.model_validate(t)
                    want = ref.input()
                    for f in type(want).model_fields:
                        a, b = getattr(want, f), getattr(got, f)
                        if (a is None) != (b is None) or (a is not None and not np.array_equal(np.asarray(a), np.asarray(b))):
                            bad("get_input", f"{f}: {str(b)[:80]}, expected {str(a)[:80]}")
                            break
                elif op == "fail":
                    if broken is not None:
                        continue
                    broken = v.indata.niter_array.copy()
                    v.indata.niter_array = broken * 0 + 2
                    v.need_to_run_code = True
                    due = True
                    before = v.wout
                    check_run()
                    if v.need_to_run_code is not True:
                        bad("failure", "after a failed run the wrapper considers its results current")
                    check_run()
                    v.indata.niter_array = broken
                    broken = None
                    due = True
                    if v.wout is not before:
                        bad("failure", "a failed run replaced the results")
                elif op == "indata":
                    f = ref.inp.ftol_array * float(rng.uniform(0.5, 2))
                    v.indata.ftol_array = f.copy()
                    ref.inp.ftol_array = f
                    v.recompute_bell()
                    due = True
                elif op == "noop":
                    # reading must not trigger a rerun
                    _ = (v.boundary.get_rc(1, 0), v.x, v.local_full_x, v.boundary.gamma().shape, v.get_dofs(), v.mpi)
                if bool(v.need_to_run_code) != due:
                    bad("flag", f"need_to_run_code is {v.need_to_run_code}, expected {due}")
                    due = bool(v.need_to_run_code)
                if len(viol) > 5:
                    break
            if not viol:
                check_queries()
        finally:
            vmecpp.run = real_run
    return dict(viol=viol, states=sorted(states), evaluations=ev[0], counters={"solver_calls": calls[0], "operations": len(ops)})


def case_initial(kind, seed, tag=None):
    """a fresh wrapper gives the equilibrium of the input file; one from an output file shows that file"""
    import vmecpp
    import vmecpp.simsopt_compat as sc
    rng = np.random.default_rng([seed, 21])
    case = dict(fn="case_initial", kind=kind, seed=seed)
    viol = []

    def bad(key, msg):
        viol.append(dict(key=f"initial/{key}", msg=f"{kind}: {msg}", detail=dict(case=case)))
    inp = make_input(kind)
    tweak_axis_n(inp, rng)
    ev = 0
    with scratch() as where:
        inp.save(where / "case.json")
        v = sc.Vmec(where / "case.json", verbose=False)
        v.run()
        # same equilibrium as the direct call with the file's own representation (axis guess left to the solver)
        d = inp.model_copy(deep=True)
        for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            if getattr(d, k) is not None:
                setattr(d, k, getattr(d, k) * 0.0)
        want = vmecpp.run(d, verbose=False, max_threads=1)
        ev += 1
        a, b = want.wout, v.wout
        for q, tol in (("volume", 1e-6), ("aspect", 1e-6), ("wb", 1e-6), ("b0", 1e-4), ("rmax_surf", 1e-6)):
            x, y = float(getattr(a, q)), float(getattr(b, q))
            if not np.isclose(x, y, rtol=tol, atol=1e-12):
                bad("equilibrium", f"{q} = {y}, directly {x}")
        if not np.allclose(a.rmnc[:, -1], b.rmnc[:, -1], atol=1e-9) or not np.allclose(a.zmns[:, -1], b.zmns[:, -1], atol=1e-9):
            bad("boundary", "the boundary of the wrapper's run differs from the direct run")
        v.wout.save(where / "wout_case.nc")
        o = sc.Vmec(str(where / "wout_case.nc"), verbose=False)
        ev += 1
        if o.runnable or o.need_to_run_code:
            bad("output_file", "an object made from an output file wants to run")
        x, y = definitions(v.wout), {q: float(getattr(o, q)()) for q in definitions(v.wout)}
        for q in x:
            if not np.isclose(x[q], y[q], rtol=1e-9, atol=1e-12 * max(1.0, abs(x[q]))):
                bad("output_file", f"{q}() = {y[q]}, expected {x[q]}")
        if not np.array_equal(o.wout.rmnc, v.wout.rmnc):
            bad("output_file", "rmnc differs from the file")
        for m in range(o.boundary.mpol + 1):
            for n in range(-o.boundary.ntor, o.boundary.ntor + 1):
                if m == 0 and n < 0:
                    continue
                j = [i for i in range(len(v.wout.xm)) if v.wout.xm[i] == m and v.wout.xn[i] == n * v.wout.nfp]
                if j and abs(o.boundary.get_rc(m, n) - v.wout.rmnc[j[0], -1]) > 1e-14:
                    bad("output_file", f"boundary coefficient rc({m},{n}) differs from the file")
        for f in (o.get_input, o.set_indata):
            try:
                f()
                bad("output_file", f"{f.__name__} worked without an input")
            except RuntimeError:
                pass
        for nm in ("nothing.txt", "solovev", "mywout.nc"):
            try:
                sc.Vmec(where / nm, verbose=False)
                bad("filename", f"{nm} accepted")
            except ValueError:
                pass
    return dict(viol=viol, evaluations=ev, states=[f"initial:{kind}"])


# ---------------------------------------------------------------- commands

def cli(args, cwd, timeout=300):
    return subprocess.run([sys.executable, "-B", "-m", "vmecpp", *args], cwd=cwd, capture_output=True, text=True, timeout=timeout)


def same_file(a, b):
    """differences between two NetCDF files, read without the NetCDF library"""
    x, y = nc3.read(a)["vars"], nc3.read(b)["vars"]
    if sorted(x) != sorted(y):
        return f"variables {sorted(set(x) ^ set(y))[:5]}"
    for k in x:
        if x[k][0] != y[k][0] or x[k][2].dtype != y[k][2].dtype or x[k][2].tobytes() != y[k][2].tobytes():
            return f"variable {k}"
    return None


def case_cli(kind, tag=None):
    import vmecpp
    case = dict(fn="case_cli", kind=kind)
    viol, n = [], 0

    def bad(key, msg):
        viol.append(dict(key=f"cli/{key}", msg=f"{kind}: {msg}", detail=dict(case=case)))
    inp = make_input(kind)
    with scratch() as where:
        (where / "in").mkdir()
        (where / "run").mkdir()
        out = vmecpp.run(inp, verbose=False, max_threads=1)
        out.wout.save(where / "ref.nc")
        names = [("case.json", "wout_case.nc"), ("input.json", "wout_input.nc"), ("a.b.json", "wout_a.b.nc"), ("input.x.json", "wout_input.x.nc")]
        for i, (fn, wn) in enumerate(names):
            inp.save(where / "in" / fn)
            args = [["-q"], ["--legacy"], [], ["-q"]][i]
            p = cli([f"../in/{fn}" if i % 2 else str(where / "in" / fn), "-t", "1", *args], where / "run")
            n += 1
            files = sorted(os.listdir(where / "run"))
            if p.returncode != 0:
                bad("status", f"{fn}: exit status {p.returncode}: {p.stderr[-300:]}")
            elif files != [wn] and not (i == 3 and files == ["wout_x.nc"]):
                bad("files", f"{fn}: files {files}")
            else:
                d = same_file(where / "ref.nc", where / "run" / files[0])
                if d:
                    bad("result", f"{fn}: the output file differs from the direct call in {d}")
            if i == 0 and p.stdout.strip() and "Output written" not in p.stdout.strip().splitlines()[-1]:
                pass
            for f in files:
                os.unlink(where / "run" / f)
        # classic format (the wrapper for the converter is part of the package under test)
        if kind in ("solovev", "cth"):
            from vmecpp import _util
            txt = _util.vmecpp_json_to_indata(json.loads(inp.to_json()))
            (where / "in" / "input.classic").write_text(txt)
            ci = vmecpp.VmecInput.from_file(where / "in" / "input.classic")
            vmecpp.run(ci, verbose=False, max_threads=1).wout.save(where / "ref2.nc")
            p = cli(["../in/input.classic", "-q", "-t", "1"], where / "run")
            n += 1
            if p.returncode != 0 or os.listdir(where / "run") != ["wout_classic.nc"]:
                bad("indata", f"exit status {p.returncode}, files {os.listdir(where / 'run')}: {p.stderr[-200:]}")
            else:
                d = same_file(where / "ref2.nc", where / "run" / "wout_classic.nc")
                if d:
                    bad("indata", f"the output file differs from the direct call in {d}")
                os.unlink(where / "run" / "wout_classic.nc")
            p = cli(["convert", "../in/input.classic"], where / "run")
            n += 1
            f = where / "in" / "classic.json"
            if p.returncode != 0 or not f.exists() or os.listdir(where / "run"):
                bad("convert", f"exit status {p.returncode}: {p.stderr[-200:]}")
            else:
                a = vmecpp.VmecInput.from_file(f)
                for q in type(a).model_fields:
                    x, y = getattr(ci, q), getattr(a, q)
                    if (x is None) != (y is None) or (x is not None and not np.array_equal(np.asarray(x), np.asarray(y))):
                        bad("convert", f"{q} differs after conversion")
        # a run that is asked to return its unconverged state
        x = inp.model_copy(deep=True)
        x.niter_array = x.niter_array * 0 + 3
        x.return_outputs_even_if_not_converged = True
        x.save(where / "in" / "short.json")
        vmecpp.run(x, verbose=False, max_threads=1).wout.save(where / "short.nc")
        p = cli(["../in/short.json", "-q", "-t", "1"], where / "run")
        n += 1
        if p.returncode != 0 or os.listdir(where / "run") != ["wout_short.nc"]:
            bad("unconverged", f"exit status {p.returncode}, files {os.listdir(where / 'run')}: {p.stderr[-200:]}")
        else:
            d = same_file(where / "short.nc", where / "run" / "wout_short.nc")
            if d:
                bad("unconverged", f"the output file differs from the direct call in {d}")
            os.unlink(where / "run" / "wout_short.nc")
        # failures: non-zero status, no output file, an existing one untouched
        fails = {}
        x = inp.model_copy(deep=True)
        x.niter_array = x.niter_array * 0 + 2
        fails["nonconverging"] = x.to_json() if hasattr(x, "to_json") else x.model_dump_json()
        t = json.loads(fails["nonconverging"])
        fails["truncated"] = fails["nonconverging"][:200]
        fails["empty"] = ""
        t2 = dict(t)
        t2["ns_array"] = "x"
        fails["badtype"] = json.dumps(t2)
        t2 = dict(t)
        t2["phiedge"] = 0.0
        t2["delt"] = -1.0
        fails["inconsistent"] = json.dumps(t2)
        t2 = dict(t, lfreeb=True, mgrid_file="none_such.nc")
        fails["nomgrid"] = json.dumps(t2)
        for j, (nm, txt) in enumerate(fails.items()):
            (where / "in" / f"{nm}.json").write_text(txt)
            existing = j % 2 == 0
            if existing:
                (where / "run" / f"wout_{nm}.nc").write_bytes(b"previous")
            p = cli([f"../in/{nm}.json", "-q"], where / "run")
            n += 1
            files = os.listdir(where / "run")
            if p.returncode == 0:
                bad("failure", f"{nm}: exit status 0")
            if p.returncode < 0:
                bad("failure", f"{nm}: killed by signal {-p.returncode}: {p.stderr[-200:]}")
            if existing and (files != [f"wout_{nm}.nc"] or (where / "run" / f"wout_{nm}.nc").read_bytes() != b"previous"):
                bad("failure", f"{nm}: an existing output file was changed")
            if not existing and files:
                bad("failure", f"{nm}: files {files} left behind")
            for f in files:
                os.unlink(where / "run" / f)
        for args in (["../in/none.json"], [], ["--bogus"], ["../in/case.json", "-t", "x"], ["../in/case.json", "-t", "0"],
                     ["../in/case.json", "-t", "-3"], ["convert"], ["convert", "../in/none.json"]):
            p = cli(args, where / "run")
            n += 1
            if p.returncode <= 0 or os.listdir(where / "run"):
                bad("arguments", f"{args}: exit status {p.returncode}, files {os.listdir(where / 'run')}")
        # read-only target: error, nothing left
    return dict(viol=viol, evaluations=n, states=[f"cli:{kind}"], counters={"commands": n})


def case_standalone(kind, exe, tag=None):
    """the C++ command: its archive holds what the direct call returns"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    case = dict(fn="case_standalone", kind=kind, exe=exe)
    viol, n = [], 0

    def bad(key, msg):
        viol.append(dict(key=f"standalone/{key}", msg=f"{kind}: {msg}", detail=dict(case=case)))
    inp = make_input(kind)
    with scratch() as where:
        inp.save(where / "case.json")
        want = vmecpp.run(inp, verbose=False, max_threads=1)
        env = dict(os.environ)
        p = subprocess.run([exe, "case.json", "1"], cwd=where, capture_output=True, text=True, timeout=300, env=env)
        n += 1
        if p.returncode != 0 or sorted(os.listdir(where)) != ["case.json", "case.out.h5"]:
            bad("status", f"exit status {p.returncode}, files {sorted(os.listdir(where))}: {p.stderr[-300:]}")
        else:
            oq = _vmecpp.OutputQuantities.load(where / "case.out.h5")
            w = vmecpp.VmecWOut._from_cpp_wout(oq.wout)
            d = outs.identical(want.wout, w)
            if d:
                bad("result", f"the archive differs from the direct call in {str(d)[:200]}")
            os.unlink(where / "case.out.h5")
        x = inp.model_copy(deep=True)
        x.niter_array = x.niter_array * 0 + 2
        x.save(where / "fail.json")
        (where / "broken.json").write_text("{")
        for args in (["fail.json"], ["broken.json"], ["none.json"], [], ["case.json", "1", "2"]):
            p = subprocess.run([exe, *args], cwd=where, capture_output=True, text=True, timeout=300, env=env)
            n += 1
            if p.returncode == 0:
                bad("failure", f"{args}: exit status 0")
            left = [f for f in os.listdir(where) if f.endswith(".h5")]
            if left:
                bad("failure", f"{args}: left {left}")
    return dict(viol=viol, evaluations=n, states=[f"standalone:{kind}"], counters={"commands": n})


def case_surface(kind, seed, tag=None):
    """the boundary object made from an input file is the boundary of that input, on the requested points"""
    from vmecpp.cpp.vmecpp import simsopt_compat as sc
    import vmecpp._util as U
    rng = np.random.default_rng([seed, 21])
    case = dict(fn="case_surface", kind=kind, seed=seed)
    viol, states, ev = [], set(), 0
    inp = make_input(kind)
    tweak_axis_n(inp, rng)
    nfp, nt = int(inp.nfp), int(inp.ntor)

    def expected(ph, th):
        R = np.zeros((len(ph), len(th)))
        Z = np.zeros_like(R)
        for m in range(inp.mpol):
            for n in range(-nt, nt + 1):
                a = 2 * np.pi * (m * th[None, :] - n * nfp * ph[:, None])
                R += inp.rbc[m, n + nt] * np.cos(a)
                Z += inp.zbs[m, n + nt] * np.sin(a)
        p = 2 * np.pi * ph[:, None]
        return np.stack([R * np.cos(p), R * np.sin(p), Z], -1)

    with scratch() as d:
        f = d / "bnd.json"
        inp.save(f)
        odd = d / "noextension"
        shutil.copy(f, odd)
        files = [f, odd]
        if hasattr(U, "vmecpp_json_to_indata"):
            nml = d / "input.bnd"
            nml.write_text(U.vmecpp_json_to_indata(json.loads(f.read_text())))
            files.append(nml)
        for file in files:
            for rg in (None, "full torus", "field period", "half period"):
                for _ in range(2):
                    nth, nph = int(rng.integers(3, 20)), int(rng.integers(2, 20))
                    try:
                        s = sc.surfacerzfourier_from_any_vmec_indata(file, ntheta=nth, nphi=nph, range=rg)
                    except Exception as e:  # noqa: BLE001
                        viol.append(dict(key=f"surface:{kind}:{file.name}:raise", msg=f"boundary object of {file.name}: {e!r}"[:300], detail=dict(case=case)))
                        continue
                    end = {None: 1.0, "full torus": 1.0, "field period": 1.0 / nfp, "half period": 0.5 / nfp}[rg]
                    ph = np.arange(nph) * end / nph + (0.5 * end / nph if rg == "half period" else 0.0)
                    e = expected(ph, np.arange(nth) / nth)
                    g = s.gamma()
                    ev += g.size
                    states.add((kind, file.name, str(rg)))
                    if g.shape != e.shape or s.nfp != nfp or not s.stellsym or np.abs(g - e).max() > 1e-11 * np.abs(e).max():
                        viol.append(dict(key=f"surface:{kind}:{file.name}:{rg}",
                                         msg=f"{kind}: boundary object from {file.name} with ntheta={nth}, nphi={nph}, range={rg} is not the boundary of the input "
                                             f"(off by {np.abs(g - e).max() if g.shape == e.shape else 'shape'})", detail=dict(case=case)))
    return dict(viol=viol[:5], counters=dict(surface_points=ev), states=[str(x) for x in states], evaluations=ev)


def main(ctx):
    exe = ctx.package(targets=("pymod", "standalone"))[1]
    T = ctx.thorough
    kinds = ["solovev", "solovev_multi", "lasym", "cth", "li383", "schedule", "cth_lasym"]
    cases = []
    for i in range(12 if T else 2):
        for j, k in enumerate(kinds):
            if not T and i == 1 and k in ("cth_lasym", "li383"):
                continue
            cases.append(dict(fn="case_history", kind=k, seed=ctx.seed * 1000 + i, n=60 if T else 25, keep=(i + j) % 3 == 0, tag=f"history:{k}:{i}"))
    for k in ("solovev", "cth", "li383"):
        for i in range(6 if T else 1):
            cases.append(dict(fn="case_surface", kind=k, seed=ctx.seed + i, tag=f"surface:{k}:{i}"))
    for k in kinds:
        if k != "schedule":
            cases.append(dict(fn="case_initial", kind=k, seed=ctx.seed, tag=f"initial:{k}"))
    for k in (["solovev", "cth"] + (["lasym", "solovev_multi"] if T else [])):
        cases.append(dict(fn="case_cli", kind=k, tag=f"cli:{k}"))
        if exe:
            cases.append(dict(fn="case_standalone", kind=k, exe=exe, tag=f"standalone:{k}"))
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=600)
    ctx.finish("exploration",
               "after every step of a random history the wrapper's rerun flag and number of solver calls equal the reference model's, its "
               "output is bit-identical to the direct run of the predicted input, derived quantities equal their definitions, failures "
               "raise ObjectiveFailure; commands write a file bit-identical to the direct call or nothing and exit non-zero",
               ["single-threaded runs", "setting a value to what it already is may or may not rerun",
                "classic input files are converted by the check's stand-in for the indata2json binary, which is not built here"],
               min_evaluations=60, min_states=20)
