"""C18: calls leave the caller's data, directory and process state alone.

Random sequences of API calls (successful and failing) run in a process whose
observable world is fingerprinted around every call: arguments, everything
handed out before, working directory, directory trees, environment, signal
handlers, open files, floating-point and random-number state.  A second part
interrupts running calls with SIGINT at random moments."""
import contextlib
import copy
import ctypes
import gc
import hashlib
import json
import os
import pathlib
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from vplib import freeb
from vplib import inputs as I
from vplib import work


# ---------------------------------------------------------------- fingerprints

def fp(o, seen=None):
    """hash of everything observable of an argument or result"""
    h = hashlib.sha256()

    def put(x, depth=0):
        import pydantic
        if depth > 12:
            return
        h.update(type(x).__name__.encode())
        if isinstance(x, np.ndarray):
            h.update(str((x.dtype, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, pydantic.BaseModel):
            for f in type(x).model_fields:
                h.update(f.encode())
                put(getattr(x, f), depth + 1)
        elif isinstance(x, dict):
            for k, v in x.items():
                h.update(repr(k).encode())
                put(v, depth + 1)
        elif isinstance(x, (list, tuple)):
            for v in x:
                put(v, depth + 1)
        elif x is None or isinstance(x, (int, float, str, bytes, bool, np.generic, pathlib.Path)):
            h.update(repr(x).encode())
        elif hasattr(type(x), "__entries") or type(x).__module__.endswith("_vmecpp"):
            if hasattr(x, "to_json"):
                h.update(str(x.to_json()).encode())
            for a in sorted(dir(type(x))):
                if a.startswith("_"):
                    continue
                if isinstance(getattr(type(x), a, None), property):
                    try:
                        v = getattr(x, a)
                    except Exception as e:
                        h.update(type(e).__name__.encode())
                        continue
                    if isinstance(v, (int, float, str, bool, np.ndarray, list)) or v is None:
                        h.update(a.encode())
                        put(v, depth + 1)
        else:
            h.update(b"?")
    put(o)
    return h.hexdigest()


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            try:
                out[os.path.relpath(p, root)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
            except OSError:
                out[os.path.relpath(p, root)] = "gone"
        for f in ds:
            out[os.path.relpath(os.path.join(d, f), root) + "/"] = "dir"
    return out


def world(root):
    w = {}
    w["cwd"] = os.getcwd()
    w["env"] = dict(os.environ)
    m = os.umask(0o022)
    os.umask(m)
    w["umask"] = m
    w["signals"] = {int(s): str(signal.getsignal(s)) for s in
                    (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGFPE, signal.SIGPIPE, signal.SIGCHLD)}
    w["sigmask"] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
    w["tree"] = tree(root)
    fds = {}
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            fds[int(f)] = os.readlink("/proc/self/fd/" + f)
    # the listing itself holds one descriptor, urandom is opened by the interpreter
    w["fds"] = {k: v for k, v in fds.items() if not v.startswith("/proc/") and "urandom" not in v}
    w["errstate"] = dict(np.geterr())
    w["nprandom"] = hashlib.sha256(repr(np.random.get_state(legacy=False)).encode()).hexdigest()
    w["random"] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
    w["argv"] = list(sys.argv)
    w["streams"] = (id(sys.stdout), id(sys.stderr))
    w["threads"] = threading.active_count()
    w["recursion"] = sys.getrecursionlimit()
    w["rlimits"] = [resource.getrlimit(r) for r in (resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_NOFILE, resource.RLIMIT_AS)]
    libm = ctypes.CDLL("libm.so.6")
    w["rounding"] = libm.fegetround()
    w["denormal"] = float(np.float64(5e-324) * np.float64(1.0)) == 5e-324
    w["locale"] = ctypes.CDLL(None).setlocale
    ctypes.CDLL(None).setlocale.restype = ctypes.c_char_p
    w["locale"] = ctypes.CDLL(None).setlocale(6, None)
    try:
        w["children"] = open(f"/proc/self/task/{os.getpid()}/children").read()
    except OSError:
        w["children"] = ""
    return w


def world_diff(a, b, allow=()):
    for k in a:
        if a[k] != b[k]:
            if k == "tree":
                add = sorted(set(b[k]) - set(a[k]))
                rem = sorted(set(a[k]) - set(b[k]))
                chg = sorted(f for f in a[k] if f in b[k] and a[k][f] != b[k][f])
                add = [f for f in add if f not in allow]
                chg = [f for f in chg if f not in allow]
                if add or rem or chg:
                    yield k, f"files: new {add[:4]}, removed {rem[:4]}, changed {chg[:4]}"
                continue
            if isinstance(a[k], dict):
                ks = [q for q in set(a[k]) | set(b[k]) if a[k].get(q) != b[k].get(q)]
                yield k, f"{k}: " + ", ".join(f"{q}: {a[k].get(q)!r} -> {b[k].get(q)!r}" for q in ks[:3])
            else:
                yield k, f"{k}: {a[k]!r} -> {b[k]!r}"


# ---------------------------------------------------------------- operations

def small(rng):
    """a quick input dictionary"""
    k = int(rng.integers(5))
    if k == 0:
        return I.single(I.base("solovev"), 5, 1e-8)
    if k == 1:
        return I.multi(I.base("solovev"), [5, 9], [1e-8, 1e-9])
    if k == 2:
        return I.single(I.base("circular_tokamak"), 5, 1e-8)
    if k == 3:
        return I.single(I.base("up_down_asym"), 5, 1e-7)
    return work.li383_small() if rng.random() < 0.3 else I.single(I.base("solovev_analytical"), 7, 1e-8)


class Hist:
    """one process history"""

    def __init__(self, seed, case):
        self.rng = np.random.default_rng(seed)
        self.viol, self.states, self.counters = [], set(), {}
        self.held = []               # (name, object, fingerprint)
        self.case = case
        self.ops = []
        self.n = 0

    def bad(self, key, msg):
        self.viol.append(dict(key=key, msg=f"after {self.ops[-4:]}: {msg}", detail=dict(case=self.case, ops=self.ops)))

    def hold(self, name, obj):
        self.held.append((name, obj, fp(obj)))
        if len(self.held) > 40:
            del self.held[int(self.rng.integers(20))]

    def call(self, name, f, args=(), allow=(), expect=None):
        """run f under observation; args are fingerprinted; expect: exception types that are allowed"""
        self.ops.append(name)
        self.n += 1
        before_args = [fp(a) for a in args]
        w0 = world(self.root)
        res, exc = None, None
        try:
            res = f()
        except Exception as e:
            exc = e
        if exc is not None:
            kind = type(exc).__name__
            exc_txt = str(exc)
            exc.__traceback__ = None
            if expect is None:
                raise work.Unexpected(f"{name}: {kind}: {exc_txt[:300]}")
        w1 = world(self.root)
        for k, t in world_diff(w0, w1, allow):
            self.bad(f"{name}/{k}", f"{name} ({'raised ' + kind if exc is not None else 'returned'}) changed {t}")
        if os.getcwd() != self.cwd:
            os.chdir(self.cwd)
        for a, b in zip(args, before_args):
            if fp(a) != b:
                self.bad(f"{name}/argument", f"{name} ({'raised' if exc is not None else 'returned'}) modified its argument of type {type(a).__name__}")
        for i, (n, o, h) in enumerate(self.held):
            g = fp(o)
            if g != h:
                self.bad(f"{name}/handed_out", f"{name} modified what {n} had handed out")
                self.held[i] = (n, o, g)
        self.states.add(f"{name}:{'exc' if exc is not None else 'ok'}")
        return res

    # -- individual operations
    def op_run(self):
        import vmecpp
        inp = I.mk(small(self.rng))
        th = int(self.rng.choice([1, 2, 4]))
        vb = [False, 1, 2, 3][int(self.rng.integers(4))]
        out = self.call("run", lambda: vmecpp.run(inp, max_threads=th, verbose=vb), [inp])
        self.hold("run", out)
        self.last = (inp, out)

    def op_restart(self):
        import vmecpp
        if self.last is None:
            return self.op_run()
        inp, out = self.last
        if len(inp.ns_array) > 1:
            inp = inp.model_copy(deep=True)
            inp.ns_array, inp.ftol_array, inp.niter_array = inp.ns_array[-1:], inp.ftol_array[-1:], inp.niter_array[-1:]
        else:
            inp = inp.model_copy(deep=True)
        inp.phiedge = inp.phiedge * 1.01
        o = self.call("restart", lambda: vmecpp.run(inp, max_threads=1, verbose=False, restart_from=out), [inp, out], expect=RuntimeError)
        if o is not None:
            self.hold("restart", o)

    def op_fail(self):
        import vmecpp
        inp = I.mk(small(self.rng))
        k = int(self.rng.integers(6))
        if k == 0:
            inp.niter_array = inp.niter_array * 0 + 2
        elif k == 1:
            inp.rbc = inp.rbc[:, :-1]
        elif k == 2:
            inp.zbs = -10 * inp.zbs
            inp.rbc[0, inp.ntor] = 0.1
        elif k == 3:
            inp.lfreeb = True
            inp.mgrid_file = "does_not_exist.nc"
        elif k == 4:
            inp.ns_array = np.array([11, 5])
        else:
            inp.phiedge = float("nan")
            inp.niter_array = inp.niter_array * 0 + 20
        if self.rng.integers(3) == 0:
            # a resolution that does not match the arrays: resized or refused, but not in the caller's object
            inp = I.mk(small(self.rng))
            inp.mpol = int(self.rng.choice([3, 8]))
            k = "resize"
        th = int(self.rng.choice([1, 3]))
        self.call(f"fail{k}", lambda: vmecpp.run(inp, max_threads=th, verbose=False), [inp], expect=Exception)

    def op_free(self):
        import vmecpp
        d = I.base("solovev_free_bdy") if False else work.canonical("fb_solovev")
        d = dict(d)
        coils = d.pop("_coils", None)
        d["ns_array"], d["ftol_array"], d["niter_array"] = [5], [1e-5], [400]
        inp = I.mk(d)
        tab = freeb.table(coils[0], **coils[1]) if coils else None
        out = self.call("run_free", lambda: vmecpp.run(inp, magnetic_field=tab, max_threads=2, verbose=False), [inp, tab], expect=RuntimeError)
        if out is not None:
            self.hold("run_free", out)
        self.hold("table", tab)

    def op_load(self):
        import vmecpp
        r = self.rng
        p = pathlib.Path(self.indir) / "input.json"
        k = int(r.integers(8))
        if k == 0:
            out = self.call("from_file", lambda: vmecpp.VmecInput.from_file(p))
            self.hold("from_file", out)
            return
        if k == 1:
            q = pathlib.Path(self.indir) / "input.classic"
            out = self.call("from_indata", lambda: vmecpp.VmecInput.from_file(q))
            self.hold("from_indata", out)
            return
        if k == 2:
            q = pathlib.Path(self.indir) / "broken.json"
        elif k == 3:
            q = pathlib.Path(self.indir) / "missing.json"
        elif k == 4:
            q = pathlib.Path(self.indir) / "input.broken"
        else:
            q = pathlib.Path(self.indir) / f"input.refused{k - 5}"

            def go():
                vmecpp.run(vmecpp.VmecInput.from_file(q), max_threads=1, verbose=False)
            self.call(f"from_file_refused{k - 5}", go, [q], expect=Exception)
            return
        self.call(f"from_file_bad{k}", lambda: vmecpp.VmecInput.from_file(q), [q], expect=Exception)

    def op_relative(self):
        """relative paths and a symlinked working directory"""
        import vmecpp
        q = os.path.relpath(os.path.join(self.indir, "input.json"), self.cwd)
        self.hold("from_file", self.call("from_relative", lambda: vmecpp.VmecInput.from_file(q), [q]))

    def op_convert(self):
        import vmecpp
        r = self.rng
        k = int(r.integers(4))
        p = pathlib.Path(self.indir) / "input.json"
        q = pathlib.Path(self.indir) / "input.classic"

        class Boom(Exception):
            pass

        def use(cm, path, boom):
            with cm(path) as f:
                txt = pathlib.Path(f).read_text()
                if boom:
                    raise Boom
            return txt
        cm = vmecpp.ensure_vmec2000_input if k < 2 else vmecpp.ensure_vmecpp_input
        path = [p, q][int(r.integers(2))]
        boom = bool(r.integers(2))
        self.call(f"ensure{'2000' if k < 2 else 'pp'}_{path.name}_{boom}", lambda: use(cm, path, boom), [path], expect=Boom if boom else None)

    def op_save(self):
        import vmecpp
        inp = I.mk(small(self.rng))
        k = int(self.rng.integers(5))
        if k == 0:
            self.call("save_input", lambda: inp.save(pathlib.Path("saved.json")), [inp], allow=("cwd/saved.json",))
        elif k == 1:
            self.call("save_bad_dir", lambda: inp.save(pathlib.Path("nodir/saved.json")), [inp], expect=OSError)
        elif self.last is not None:
            out = self.last[1]
            if k == 2:
                self.call("save_wout", lambda: out.wout.save("wout_x.nc"), [out], allow=("cwd/wout_x.nc",))
                w = self.call("load_wout", lambda: vmecpp.VmecWOut.from_wout_file("wout_x.nc"))
                self.hold("load_wout", w)
                self.call("save_loaded", lambda: w.save("wout_y.nc"), [w], allow=("cwd/wout_y.nc",))
            elif k == 3:
                self.call("save_wout_bad", lambda: out.wout.save("nodir/wout_x.nc"), [out], expect=Exception)
            else:
                self.call("load_wout_bad", lambda: vmecpp.VmecWOut.from_wout_file(os.path.join(self.indir, "broken.json")), expect=Exception)

    def op_interpolate(self):
        import vmecpp
        if self.last is None:
            return self.op_run()
        inp, out = self.last
        t = inp.model_copy(deep=True)
        t.ns_array = np.array([9])
        t.ftol_array, t.niter_array = t.ftol_array[-1:], t.niter_array[-1:]
        o = self.call("interpolate", lambda: vmecpp.interpolate_solution(out, t), [out, t], expect=Exception)
        if o is not None:
            self.hold("interpolate", o)
            r = self.call("run_interpolated", lambda: vmecpp.run(t, verbose=False, max_threads=1, restart_from=o), [t, o], expect=RuntimeError)
            if r is not None:
                self.hold("run_interpolated", r)

    def op_profile(self):
        import vmecpp
        inp = I.mk(small(self.rng))
        f = str(self.rng.choice(["pressure", "iota", "current", "nonsense"]))
        o = self.call("set_profile", lambda: vmecpp.set_profile(inp, f, lambda s: 1.0 - 0.5 * s), [inp], expect=ValueError if f == "nonsense" else None)
        if o is not None:
            self.hold("set_profile", o)

    def op_python_iteration(self):
        import vmecpp
        inp = I.mk(I.single(I.base("solovev"), 5, 1e-6))
        k = int(self.rng.integers(3))
        if k == 0:
            from vmecpp.cpp import _vmecpp
            cpp = inp._to_cpp_vmecindata()
            m = _vmecpp.VmecModel.create(cpp, 5)
            self.call("solve_equilibrium", lambda: vmecpp.solve_equilibrium(m), [inp, cpp])
            o = np.asarray(m.get_state())
        elif k == 1:
            r = self.call("solve_multigrid", lambda: vmecpp.solve_multigrid(inp), [inp])
            o = np.asarray(r[0].get_state())
        else:
            inp = inp.model_copy(deep=True)
            inp.iteration_style = vmecpp.IterationStyle("parvmec") if self.rng.integers(2) else inp.iteration_style
            o = self.call("run_style", lambda: vmecpp.run(inp, verbose=False, max_threads=1), [inp], expect=Exception)
        if o is not None:
            self.hold("python_iteration", o)

    def op_model(self):
        import vmecpp
        from vmecpp.cpp import _vmecpp
        inp = I.mk(I.single(I.base("solovev"), 5, 1e-6))
        cpp = inp._to_cpp_vmecindata()
        m = self.call("model_create", lambda: _vmecpp.VmecModel.create(cpp, 5), [inp, cpp])
        self.call("evaluate", lambda: m.evaluate(1, 1), [cpp])
        s = self.call("get_state", lambda: np.asarray(m.get_state()))
        g = self.call("get_forces", lambda: np.asarray(m.get_forces()))
        self.hold("get_state", s)
        self.hold("get_forces", g)
        self.call("perform_time_step", lambda: m.perform_time_step(0.9, 0.1, 0.5) if False else m.set_state(s * 1.0001), [s])
        self.call("evaluate2", lambda: m.evaluate(2, 2))
        self.call("apply_preconditioner", lambda: m.apply_preconditioner(g), [g])
        self.call("hvp", lambda: m.hessian_vector_product(g, 1e-7), [g], expect=Exception)
        self.call("reset", lambda: m.reset_to_initial_guess())
        del m
        gc.collect()

    def op_continuation(self):
        import vmecpp
        d = I.multi(I.base("solovev"), [5, 7], [1e-6, 1e-7])
        inp = I.mk(d)
        inp.mpol = np.array([4, int(inp.mpol)])
        o = self.call("continuation", lambda: vmecpp.run(inp, verbose=False, max_threads=1), [inp], expect=Exception)
        if o is not None:
            self.hold("continuation", o)

    def op_convertcpp(self):
        import vmecpp
        inp = I.mk(small(self.rng))
        cpp = self.call("to_cpp", lambda: inp._to_cpp_vmecindata(), [inp])
        b = self.call("from_cpp", lambda: vmecpp.VmecInput._from_cpp_vmecindata(cpp), [cpp])
        self.hold("from_cpp", b)
        c2 = self.call("cpp_copy", lambda: cpp.copy(), [cpp])
        self.call("cpp_resize", lambda: c2._set_mpol_ntor(3, 1), [cpp, b])
        r = self.call("resize2d", lambda: vmecpp.VmecInput.resize_2d_coeff(b.rbc, 4, 2), [b])
        self.hold("resize2d", r)
        if self.last is not None:
            w = self.last[1].wout
            cw = self.call("wout_to_cpp", lambda: w._to_cpp_wout(), [w])
            w2 = self.call("wout_from_cpp", lambda: vmecpp.VmecWOut._from_cpp_wout(cw), [cw])
            self.hold("wout_from_cpp", w2)
            del cw
            gc.collect()

    def op_dump(self):
        inp = I.mk(small(self.rng))
        self.call("dump_json", lambda: inp.model_dump_json(), [inp])
        self.call("to_json", lambda: inp.to_json(), [inp])
        if self.last is not None:
            out = self.last[1]
            self.call("dump_output", lambda: out.model_dump_json(), [out])
            import vmecpp
            o = self.call("revalidate", lambda: vmecpp.VmecOutput(**{f: getattr(out, f) for f in type(out).model_fields}), [out])
            self.hold("revalidate", o)

    def op_field(self):
        from vmecpp.cpp import _vmecpp
        import vmecpp
        data = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
        p = self.call("makegrid_params", lambda: vmecpp.MakegridParameters.from_file(os.path.join(data, "makegrid_parameters_solovev.json")))
        p.number_of_r_grid_points = p.number_of_z_grid_points = 11
        t = self.call("field_table", lambda: vmecpp.MagneticFieldResponseTable.from_coils_file(os.path.join(data, "coils.solovev"), p), [p])
        self.hold("field_table", t)

    def op_util(self):
        from vmecpp import _util
        inp = I.mk(small(self.rng))
        d = json.loads(inp.to_json())
        self.call("json_to_indata", lambda: _util.vmecpp_json_to_indata(d), [d])
        self.call("dense_to_sparse", lambda: _util.dense_to_sparse_coefficients(inp.rbc), [inp])
        s = _util.dense_to_sparse_coefficients(inp.rbc)
        self.hold("s2d", self.call("sparse_to_dense", lambda: _util.sparse_to_dense_coefficients_implicit(s), [s]))
        a = np.arange(3.0)
        self.hold("pad", self.call("right_pad", lambda: _util.right_pad(a, 7, -1.0), [a]))
        q = pathlib.Path(self.indir) / "input.classic"
        o = pathlib.Path(self.cwd) / "classic_out.json"
        self.call("indata_to_json", lambda: _util.indata_to_json(q, output_override=o), [q, o], allow=("cwd/classic_out.json",))
        self.call("indata_to_json_missing", lambda: _util.indata_to_json(pathlib.Path("nothing")), expect=FileNotFoundError)
        self.call("indata_to_json_bad", lambda: _util.indata_to_json(pathlib.Path(self.indir) / "input.broken"), expect=Exception)

    def op_simsopt(self):
        import vmecpp.simsopt_compat as sc
        p = os.path.join(self.indir, ["input.json", "input.classic"][int(self.rng.integers(2))])
        v = self.call("simsopt_init", lambda: sc.Vmec(p, verbose=False))
        self.call("simsopt_run", lambda: v.run())
        self.hold("simsopt_output", v.output_quantities)
        self.hold("simsopt_wout", v.wout)
        v.boundary.set_rc(1, 0, v.boundary.get_rc(1, 0) * 1.02)
        if self.rng.integers(2):
            v.need_to_run_code = True
        self.call("simsopt_rerun", lambda: v.run())
        self.hold("simsopt_output", v.output_quantities)
        b = v.boundary
        snap = b.get_dofs().copy()
        self.call("simsopt_resize", lambda: v.set_mpol_ntor(4, 0))
        self.call("simsopt_get_input", lambda: v.get_input())
        if not np.array_equal(snap, b.get_dofs()) and b is not v.boundary:
            self.bad("simsopt_resize/argument", "set_mpol_ntor changed the previous boundary object")

    OPS = ["run", "run", "restart", "fail", "fail", "free", "load", "load", "relative", "convert", "save", "save", "interpolate",
           "profile", "python_iteration", "model", "continuation", "convertcpp", "dump", "field", "util"]


INDATA = """&INDATA
 LASYM = F
 NFP = 1
 MPOL = 5
 NTOR = 0
 NS_ARRAY = 5
 FTOL_ARRAY = 1.0E-08
 NITER_ARRAY = 1000
 NSTEP = 50
 DELT = 0.9
 TCON0 = 1.0
 PHIEDGE = 1.0
 NCURR = 0
 AM = 0.125 -0.125
 AI = 1.0
 AC = 0.0
 PMASS_TYPE = 'power_series'
 PIOTA_TYPE = 'power_series'
 PRES_SCALE = 1.0
 GAMMA = 0.0
 CURTOR = 0.0
 LFREEB = F
 RAXIS_CC = 4.0
 ZAXIS_CS = 0.0
 RBC(0,0) = 3.999  ZBS(0,0) = 0.0
 RBC(0,1) = 1.026  ZBS(0,1) = 1.580
 RBC(0,2) = -0.068 ZBS(0,2) = 0.010
/
"""


def setup(h, where):
    h.root = where
    h.cwd = os.path.join(where, "cwd")
    h.indir = os.path.join(where, "in put")
    for d in (h.cwd, h.indir, os.path.join(where, "tmp"), os.path.join(where, "home")):
        os.makedirs(d)
    d = I.single(I.base("solovev"), 5, 1e-8)
    I.mk(d).save(pathlib.Path(h.indir) / "input.json")
    with open(os.path.join(h.indir, "input.classic"), "w") as f:
        f.write(INDATA)
    with open(os.path.join(h.indir, "broken.json"), "w") as f:
        f.write('{"mpol": 5, "rbc": [')
    with open(os.path.join(h.indir, "input.broken"), "w") as f:
        f.write("&INDATA\n MPOL = 'x' \n RBC(0,0 = ,,\n")
    # these convert, but what comes out is refused
    for k, (a, b) in enumerate((("/", " MPOL = 0\n/"), ("/", " NFP = -1\n/"), ("/", " PMASS_TYPE = 'nonsense'\n/"))):
        head, _, tail = INDATA.rpartition(a)
        with open(os.path.join(h.indir, f"input.refused{k}"), "w") as f:
            f.write(head + b + tail)
    h.last = None


@contextlib.contextmanager
def scratch(h):
    where = os.path.realpath(tempfile.mkdtemp(prefix="c18."))
    old = os.getcwd()
    keep = {k: os.environ.get(k) for k in ("TMPDIR", "HOME")}
    try:
        setup(h, where)
        os.environ["TMPDIR"] = os.path.join(where, "tmp")
        os.environ["HOME"] = os.path.join(where, "home")
        tempfile.tempdir = None
        os.chdir(h.cwd)
        yield
    finally:
        os.chdir(old)
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = None
        shutil.rmtree(where, ignore_errors=True)


def case_history(seed, n, simsopt=False, tag=None):
    import vmecpp  # noqa: F401  imported before the first fingerprint
    h = Hist(seed, dict(fn="case_history", seed=seed, n=n, simsopt=simsopt))
    # the first run loads libraries and starts the thread pool
    vmecpp.run(I.mk(I.single(I.base("solovev"), 5, 1e-3)), max_threads=4, verbose=False)
    if simsopt:
        import vmecpp.simsopt_compat  # noqa: F401
    with scratch(h):
        if simsopt:
            h.op_simsopt()
            h.op_simsopt()
        else:
            for _ in range(n):
                getattr(h, "op_" + str(h.rng.choice(h.OPS)))()
                if len(h.viol) > 6:
                    break
        gc.collect()
        junk = [np.full(50000, 7.7) for _ in range(40)]     # reuse freed memory
        h.ops.append("end")
        for nme, o, f in h.held:
            if fp(o) != f:
                h.bad("end/handed_out", f"what {nme} had handed out changed")
        del junk
    return dict(viol=h.viol, states=sorted(h.states), evaluations=h.n, counters={"calls": h.n})


# ---------------------------------------------------------------- interruption

def long_input(kind):
    """an input that keeps iterating"""
    if kind == "solovev":
        d = I.single(I.base("solovev"), 51, 1e-36)
    elif kind == "multi":
        d = I.multi(I.base("solovev"), [11, 51], [1e-36, 1e-36])
    elif kind == "cth":
        d = work.canonical("cth")
        d["ftol_array"] = [1e-36]
    elif kind == "lasym":
        d = work.canonical("up_down_asym")
        d["ftol_array"] = [1e-36] * len(d["ns_array"])
    else:
        d = dict(work.canonical("fb_solovev"))
        d["ftol_array"] = [1e-36] * len(d["ns_array"])
    d = dict(d)
    d["nstep"] = 10
    return d


def case_interrupt(kind, threads, seed, style="run", verbose=0, tag=None):
    import vmecpp
    case = dict(fn="case_interrupt", kind=kind, threads=threads, seed=seed, style=style, verbose=verbose)
    h = Hist(seed, case)
    rng = h.rng
    d = long_input(kind)
    coils = d.pop("_coils", None)
    kw = {}
    if coils:
        kw["magnetic_field"] = freeb.table(coils[0], **coils[1])

    def go(inp):
        if style == "run":
            return vmecpp.run(inp, max_threads=threads, verbose=verbose, **kw)
        if style == "python":
            return vmecpp.solve_multigrid(inp)
        if style == "continuation":
            return vmecpp.run(inp, max_threads=threads, verbose=verbose)
        raise ValueError(style)
    small_in = I.mk(I.single(I.base("solovev"), 7, 1e-9))
    ref = vmecpp.run(small_in, max_threads=1, verbose=False)
    ref_fp = fp(ref.wout)
    # iteration rate of this configuration
    cal = dict(d)
    cal["niter_array"] = [200] * len(d["ns_array"])
    cal["return_outputs_even_if_not_converged"] = True
    inp = I.mk(cal)
    if style == "continuation":
        inp.mpol = np.array([3, int(inp.mpol)])
    t0 = time.monotonic()
    with contextlib.suppress(RuntimeError):
        go(inp)
    per = max(time.monotonic() - t0, 0.02) / 200
    long = dict(d)
    total = 40.0
    long["niter_array"] = [int(total / per)] * len(d["ns_array"])
    inp = I.mk(long)
    if style == "continuation":
        inp.mpol = np.array([3, int(inp.mpol)])
    viol, n, lat = [], 0, []
    with scratch(h):
        for rep in range(3):
            delay = float(rng.choice([0.0, 0.002, 0.02, 0.2, 0.6])) * float(rng.uniform(0.5, 1.5))
            before, w0 = fp(inp), world(h.root)
            sent = [None]

            def fire():
                sent[0] = time.monotonic()
                os.kill(os.getpid(), signal.SIGINT)
            got = None
            tm = threading.Timer(delay, fire)
            try:
                tm.start()
                try:
                    go(inp)
                    got = "returned"
                except KeyboardInterrupt:
                    got = "KeyboardInterrupt"
                except BaseException as e:
                    got = f"{type(e).__name__}: {str(e)[:200]}"
                end = time.monotonic()
                while sent[0] is None:
                    time.sleep(0.01)
                time.sleep(0.02)
            except KeyboardInterrupt:
                got = got or "KeyboardInterrupt"
                if sent[0] is None:
                    sent[0] = end = time.monotonic()
                elif got != "returned":
                    end = time.monotonic()
            tm.join()
            n += 1
            took = end - sent[0]
            lat.append(took)

            def bad(key, msg):
                viol.append(dict(key=f"interrupt/{style}/{key}", msg=f"{kind}, {threads} threads, SIGINT after {delay:.3f} s: {msg}",
                                 detail=dict(case=case)))
            if got == "returned" and took < total / 4:
                # finished before the signal or reached its end: only possible if the run itself ended early
                if took >= 0:
                    bad("ignored", "the call returned normally although it was interrupted")
            elif got != "KeyboardInterrupt":
                bad("exception", f"ended with {got}")
            elif took > 15.0:
                bad("late", f"KeyboardInterrupt only {took:.1f} s after the signal")
            if fp(inp) != before:
                bad("argument", "the interrupted call modified its input")
            for k, t in world_diff(w0, world(h.root)):
                if k != "threads":
                    bad(k, f"the interrupted call changed {t}")
            os.chdir(h.cwd)
            again = vmecpp.run(small_in, max_threads=1, verbose=False)
            if fp(again.wout) != ref_fp:
                bad("after", "a later run gives another result")
            if fp(ref.wout) != ref_fp:
                bad("handed_out", "the interrupted call changed an earlier result")
    return dict(viol=viol, evaluations=n, states=[f"{style}:{kind}:{threads}"],
                counters={"interrupts": n}, sample=dict(kind=kind, style=style, latency=[round(x, 3) for x in lat]))


def case_handlers(seed, tag=None):
    """other signals: handlers run during the call, their exceptions end it, harmless ones do not disturb it"""
    import vmecpp
    case = dict(fn="case_handlers", seed=seed)
    viol = []
    d = I.single(I.base("solovev"), 51, 1e-16, 3000)
    d["nstep"] = 10
    inp = I.mk(d)
    ref = fp(vmecpp.run(inp, max_threads=1, verbose=False).wout)
    hits = []
    old = signal.signal(signal.SIGALRM, lambda *a: hits.append(1))
    try:
        signal.setitimer(signal.ITIMER_REAL, 0.01, 0.01)
        out = vmecpp.run(inp, max_threads=1, verbose=False)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if fp(out.wout) != ref:
            viol.append(dict(key="handlers/result", msg="a run during which a signal handler was called gives another result", detail=dict(case=case)))
        if not hits:
            viol.append(dict(key="handlers/starved", msg="no signal handler was called during a run", detail=dict(case=case)))

        class Stop(Exception):
            pass

        def boom(*a):
            raise Stop
        signal.signal(signal.SIGALRM, boom)
        ld = I.single(I.base("solovev"), 51, 1e-36, 100000)
        ld["nstep"] = 10
        for th in (1, 3):
            li = I.mk(ld)
            t0 = time.monotonic()
            signal.setitimer(signal.ITIMER_REAL, 0.3)
            got = "returned"
            try:
                vmecpp.run(li, max_threads=th, verbose=False)
            except Stop:
                got = "Stop"
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if got != "Stop":
                viol.append(dict(key="handlers/exception", msg=f"the exception of a signal handler became {got[:200]} after {time.monotonic() - t0:.1f} s",
                                 detail=dict(case=case)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if fp(vmecpp.run(inp, max_threads=1, verbose=False).wout) != ref:
        viol.append(dict(key="handlers/after", msg="a run after an interruption gives another result", detail=dict(case=case)))
    return dict(viol=viol, evaluations=5, states=["handlers"], counters={"handler_calls": len(hits)})


THREADS = """
import os, sys, threading, time
import vmecpp
from vplib import inputs as I
first = [None if x == "-" else int(x) for x in sys.argv[1].split(",")]
d = I.single(I.base("solovev"), 41, 1e-10)
inp = I.mk(d)
out = []
for th in first:
    peak, stop = [0], threading.Event()
    vmecpp.run(inp, max_threads=th, verbose=False)
    print("tasks", th, len(os.listdir("/proc/self/task")), flush=True)
"""


def case_thread_default(tag=None):
    """the thread count of one call does not leak into the next: max_threads=None keeps meaning 'all cores'"""
    viol = []
    env = dict(os.environ, OMP_NUM_THREADS="6", OPENBLAS_NUM_THREADS="1")

    def tasks(seq):
        with tempfile.TemporaryDirectory() as t:
            p = subprocess.run([sys.executable, "-B", "-c", THREADS, seq], env=env, capture_output=True, text=True, timeout=200, cwd=t)
        rows = [l.split() for l in p.stdout.splitlines() if l.startswith("tasks")]
        if p.returncode or len(rows) != len(seq.split(",")):
            raise work.Unexpected(f"thread count run failed: {p.returncode} {p.stderr[-500:]}")
        return [int(r[2]) for r in rows]
    base = tasks("-")[0]
    one = tasks("1")[0]
    for seq in ("1,-", "2,1,-"):
        got = tasks(seq)[-1]
        if got < base:
            viol.append(dict(key="thread_default", msg=f"max_threads sequence {seq}: the last call uses {got} threads, on its own {base}",
                             detail=dict(case=dict(fn="case_thread_default"))))
    if one >= base:
        return dict(viol=[], skip="thread counts not distinguishable")
    return dict(viol=viol, evaluations=2, states=[f"threads:{base}"], counters={})


def case_cli(tag=None):
    """the command writes only its output file"""
    h = Hist(1, dict(fn="case_cli"))
    viol, n = [], 0
    with scratch(h):
        for name, args, ok, new in (("json", ["../in put/input.json", "-q"], True, {"cwd/wout_input.nc"}),
                                    ("indata", ["../in put/input.classic", "-q", "-t", "2"], True, {"cwd/wout_classic.nc"}),
                                    ("legacy", ["../in put/input.json", "--legacy"], True, {"cwd/wout_input.nc"}),
                                    ("broken", ["../in put/broken.json", "-q"], False, set()),
                                    ("brokenindata", ["../in put/input.broken", "-q"], False, set()),
                                    ("missing", ["../in put/none.json", "-q"], False, set()),
                                    ("convert", ["convert", "../in put/input.classic"], True, {"in put/classic.json"})):
            before = tree(h.root)
            p = subprocess.run([sys.executable, "-B", "-m", "vmecpp", *args], capture_output=True, text=True, timeout=200, cwd=h.cwd)
            after = tree(h.root)
            n += 1
            add = {f for f in after if after[f] != before.get(f)}
            rem = {f for f in before if f not in after}
            if (p.returncode == 0) != ok:
                viol.append(dict(key=f"cli/{name}/status", msg=f"exit status {p.returncode}: {p.stderr[-300:]}", detail=dict(case=h.case)))
            if rem or (add != new and not (add <= new and ok)):
                viol.append(dict(key=f"cli/{name}/files", msg=f"new or changed files {sorted(add)}, removed {sorted(rem)}", detail=dict(case=h.case)))
            for f in list(add):
                with contextlib.suppress(OSError):
                    os.unlink(os.path.join(h.root, f))
        # interrupted command: no output file, non-zero status
        d = I.single(I.base("solovev"), 51, 1e-36, 200000)
        d["nstep"] = 10
        I.mk(d).save(pathlib.Path(h.indir) / "long.json")
        for delay in (1.0, 2.5):
            before = tree(h.root)
            p = subprocess.Popen([sys.executable, "-B", "-m", "vmecpp", "../in put/long.json", "-q"], cwd=h.cwd,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            time.sleep(delay)
            p.send_signal(signal.SIGINT)
            try:
                _, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                viol.append(dict(key="cli/interrupt/hang", msg="the interrupted command did not end within 60 s", detail=dict(case=h.case)))
                continue
            n += 1
            after = tree(h.root)
            if p.returncode == 0:
                viol.append(dict(key="cli/interrupt/status", msg="exit status 0 after SIGINT", detail=dict(case=h.case)))
            if after != before:
                viol.append(dict(key="cli/interrupt/files", msg=f"files changed: {sorted(set(after.items()) ^ set(before.items()))[:4]}", detail=dict(case=h.case)))
    return dict(viol=viol, evaluations=n, states=["cli"], counters={"commands": n})


def main(ctx):
    ctx.package()
    T = ctx.thorough
    cases = [dict(fn="case_history", seed=ctx.seed * 1000 + i, n=40 if T else 25, tag=f"history{i}") for i in range(60 if T else 18)]
    cases += [dict(fn="case_history", seed=ctx.seed * 1000 + 900 + i, n=2, simsopt=True, tag=f"simsopt{i}") for i in range(6 if T else 1)]
    cases += [dict(fn="case_thread_default", tag="thread_default"), dict(fn="case_cli", tag="cli"), dict(fn="case_handlers", seed=ctx.seed, tag="handlers")]
    kinds = [("solovev", 1, "run"), ("multi", 4, "run"), ("free", 2, "run"), ("solovev", 1, "python"), ("multi", 2, "continuation"), ("lasym", 3, "run")]
    if T:
        kinds = [(k, t, s) for k in ("solovev", "multi", "free", "lasym", "cth") for t in (1, 2, 4) for s in ("run",)] * 4 + kinds * 3
    for i, (k, t, s) in enumerate(kinds):
        cases.append(dict(fn="case_interrupt", kind=k, threads=t, seed=ctx.seed * 77 + i, style=s, verbose=i % 3, tag=f"interrupt:{k}:{t}:{s}:{i}"))
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    cases.sort(key=lambda c: c["fn"] != "case_interrupt")
    ctx.run_cases(cases, env=ctx.env(MALLOC_PERTURB_="165"), on_timeout="violation", timeout=600, workers=6)
    ctx.finish("exploration",
               "around every call, successful or raising, the fingerprints of arguments, earlier results, working directory, files "
               "(also below TMPDIR and HOME), environment, signal handlers, descriptors, random and floating-point state are equal; "
               "SIGINT ends a run with KeyboardInterrupt within 15 s and a later run is bit-identical to one before",
               ["interruption is polled every nstep (10 here) iterations", "freed memory is overwritten by the allocator (MALLOC_PERTURB_)"],
               min_evaluations=100, min_states=20)
