"""C09: saving a wout file is lossless and all-or-nothing.

Lossless: real and scrambled outputs are saved, loaded and compared field by
field; an independent NetCDF-classic reader checks the file's layout against
that of the classic code.  All-or-nothing: a preloaded monitor records what the
target path holds at every file-system call of the save and injects write
errors, a full disk, interruption and process death at each of them."""
import copy
import ctypes
import json
import os
import pickle
import shutil
import signal
import subprocess

import numpy as np

from vplib import core, nc3, work

SCALAR_EXTCUR = True


def load_layout():
    return json.load(open(f"{core.VERIF}/data/wout_layout.json"))


def eqv(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.size and (a.dtype.kind != b.dtype.kind):
            return False
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def snapshot(w):
    d = {k: getattr(w, k) for k in type(w).model_fields}
    d.update(w.model_extra or {})
    return copy.deepcopy(d)


def fdiff(a, b):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not eqv(a[k], b[k])]


def scramble(w, rng):
    """a copy of w with every stored number replaced (sizes stay)"""
    keep = {"ns", "mpol", "ntor", "mnmax", "mnmax_nyq", "lasym", "lfreeb", "lrfp", "version_", "nextcur",
            "mgrid_mode", "nfp"}
    u = w.model_copy(deep=True)

    def f():
        k = int(rng.integers(8))
        if k == 0:
            return float(rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, 5e-324, 1.7976931348623157e308,
                                     9.969209968386869e36, 1e22, -2147483647.0]))
        return float(rng.standard_normal() * 10.0 ** rng.integers(-30, 30))
    for k in type(w).model_fields:
        if k in keep:
            continue
        v = getattr(w, k)
        if isinstance(v, bool):
            setattr(u, k, bool(rng.integers(2)))
        elif isinstance(v, int):
            setattr(u, k, int(rng.integers(-2**31, 2**31)))
        elif isinstance(v, float):
            setattr(u, k, f())
        elif isinstance(v, str):
            n = type(w).model_fields[k].metadata[0].max_length if type(w).model_fields[k].metadata else 10
            s = "".join(rng.choice(list("abcXYZ_-./ 019"), int(rng.integers(0, n + 1)))).strip()
            setattr(u, k, s)
        elif isinstance(v, np.ndarray):
            if v.dtype.kind in "iu":
                setattr(u, k, rng.integers(-2**31, 2**31, v.shape).astype(v.dtype))
            elif v.size:
                setattr(u, k, np.array([f() for _ in range(v.size)]).reshape(v.shape))
    return u


def layout_checks(path, w, viol, key, skip_values=False):
    """independent reading of the file against the object"""
    n = 0
    lay = load_layout()
    try:
        m = nc3.read(path)
    except (nc3.Bad, KeyError, ValueError) as e:
        viol.append({"key": f"{key}:unreadable", "msg": f"saved file is not a valid NetCDF classic file: {e}"})
        return 1
    if m["unlimited"]:
        viol.append({"key": f"{key}:unlimited", "msg": f"dimension {m['unlimited']} has no definite size"})
    sizes = {"radius": w.ns, "mn_mode": w.mnmax, "mn_mode_nyq": w.mnmax_nyq, "n_tor": w.ntor + 1}
    for d, s in sizes.items():
        n += 1
        if m["dims"].get(d) != s:
            viol.append({"key": f"{key}:dim:{d}", "msg": f"dimension {d} is {m['dims'].get(d)}, should be {s}"})
    for name, spec in lay.items():
        dims, dt = tuple(spec[0]), spec[1]
        if len(spec) > 2 and not w.lasym:
            if name in m["vars"]:
                viol.append({"key": f"{key}:sym:{name}", "msg": f"{name} present in a symmetric file"})
            continue
        n += 1
        if name not in m["vars"]:
            viol.append({"key": f"{key}:missing:{name}", "msg": f"variable {name} missing from the file"})
            continue
        got = m["vars"][name]
        if name == "extcur":
            dims = got[0] if got[0] in ((), ("ext_current",)) else dims
        if len(dims) == 1 and got[0] == (f"dim_{got[2].shape[0]:05d}",) and got[2].shape[0] != m["dims"].get(dims[0]):
            dims = got[0]       # arrays of a length the classic layout has no room for
        if (got[0], got[1]) != (dims, dt):
            viol.append({"key": f"{key}:layout:{name}", "msg": f"{name} stored as {got[1]}{got[0]}, "
                         f"classic layout is {dt}{dims}"})
    if skip_values:
        return n
    alias = {(f.alias or k): k for k, f in type(w).model_fields.items()}
    for name, (dims, dt, a) in m["vars"].items():
        k = alias.get(name, name)
        v = getattr(w, k, None)
        n += 1
        if v is None:
            viol.append({"key": f"{key}:extra:{name}", "msg": f"variable {name} has no counterpart"})
            continue
        if dt == "S1":
            s = a.tobytes().decode("ascii").rstrip(" \x00")
            ok = s == str(v).rstrip()
        else:
            want = np.asarray(v, dtype=float)
            if want.ndim == 2:
                want = want.T
            if name == "extcur" and not w.lfreeb and a.size <= 1 and want.size <= 1:
                continue        # no coil currents in a fixed-boundary run
            ok = a.shape == want.shape and np.array_equal(a.astype(float), want, equal_nan=True)
        if not ok:
            viol.append({"key": f"{key}:value:{name}", "msg": f"variable {name} in the file differs from the object"})
    return n


def roundtrip(w, viol, key, path):
    import vmecpp
    before = snapshot(w)
    w.save(path)
    n = len(before)
    for k in fdiff(before, snapshot(w)):
        viol.append({"key": f"{key}:modified:{k}", "msg": f"saving changed the object's field {k}"})
    u = vmecpp.VmecWOut.from_wout_file(path)
    after = snapshot(u)
    for k in fdiff(before, after)[:5]:
        viol.append({"key": f"{key}:field:{k}", "msg": f"field {k} changed on save/load: "
                     f"{str(before.get(k))[:120]} -> {str(after.get(k))[:120]}"})
    n += layout_checks(path, w, viol, key)
    # saving the loaded object gives the same bytes again
    p2 = path + ".again.nc"
    u.save(p2)
    if open(path, "rb").read() != open(p2, "rb").read():
        # (creation order or padding may differ: compare what is stored)
        a, b = nc3.read(path)["vars"], nc3.read(p2)["vars"]
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b or a[k][2].tobytes() != b[k][2].tobytes():
                viol.append({"key": f"{key}:resave:{k}", "msg": f"variable {k} differs after load and save"})
    left = [f for f in os.listdir(os.path.dirname(path)) if f not in (os.path.basename(path), os.path.basename(p2))]
    if left:
        viol.append({"key": f"{key}:stray", "msg": f"files left beside the saved ones: {left}"})
    os.unlink(p2)
    return n


def native(w, viol, key):
    """the object survives conversion to the native form and back"""
    import vmecpp
    before = snapshot(w)
    c = w._to_cpp_wout()
    u = vmecpp.VmecWOut._from_cpp_wout(c)
    after = snapshot(u)
    for k in [k for k in fdiff(before, after) if k in type(w).model_fields][:5]:
        viol.append({"key": f"{key}:native:{k}", "msg": f"field {k} changed in the native round trip: "
                     f"{str(before.get(k))[:120]} -> {str(after.get(k))[:120]}"})
    return len(before)


def case_lossless(spec, scr):
    d, tag, must = work.spec_to_input(spec)
    out = os.path.abspath("out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if spec.get("square"):
        # as many surfaces as harmonics: nothing in a table's shape tells its orientation
        from vplib import inputs as I
        ns = (d["ntor"] + 1) + (d["mpol"] - 1) * (2 * d["ntor"] + 1)
        d["return_outputs_even_if_not_converged"] = True
        if spec["square"] == "nyq":
            I.single(d, 5, 1e-6, 20)
            d["return_outputs_even_if_not_converged"] = True
            ns = int(work.solve(d, True).wout.mnmax_nyq)
        I.single(d, ns, 1e-8, 60)
        d["return_outputs_even_if_not_converged"] = True
    try:
        w = work.solve(d, must).wout
    except work.Skip as e:
        return {"skip": str(e)}
    viol, n = [], 0
    if spec.get("square") and w.ns != (w.mnmax if spec["square"] == "geo" else w.mnmax_nyq):
        return {"skip": "not square"}
    n += roundtrip(w, viol, "saved", f"{out}/wout_a.nc")
    n += native(w, viol, "converted")
    rng = np.random.default_rng([spec.get("seed", 1), spec.get("i", 0), 9])
    for i in range(scr):
        u = scramble(w, rng)
        n += roundtrip(u, viol, "scrambled", f"{out}/wout_a.nc")
        n += native(u, viol, "scrambled")
    shutil.rmtree(out)
    return {"viol": viol, "evaluations": n, "counters": {"fields compared": n, "files": 1 + scr},
            "states": [work.describe(d)]}


def case_notconverged(name):
    import vmecpp
    d = work.canonical(name)
    d["niter_array"] = [7] * len(d["ns_array"])
    d["return_outputs_even_if_not_converged"] = True
    out = os.path.abspath("out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = work.solve(d, True).wout
    viol = []
    n = roundtrip(w, viol, "not_converged", f"{out}/wout_a.nc")
    shutil.rmtree(out)
    return {"viol": viol, "evaluations": n, "states": [f"not_converged/{name}"]}


def case_foreign(name):
    """files of other codes: loaded, saved, loaded again"""
    import vmecpp
    p = f"{core.REPO}/src/vmecpp/cpp/vmecpp/test_data/{name}"
    if not os.path.exists(p):
        return {"skip": "missing"}
    w = vmecpp.VmecWOut.from_wout_file(p)
    out = os.path.abspath("out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    viol = []
    # what was loaded is what is stored there
    m = nc3.read(p)["vars"]
    alias = {(f.alias or k): k for k, f in vmecpp.VmecWOut.model_fields.items()}
    n = 0
    for k, (dims, dt, a) in m.items():
        v = getattr(w, alias.get(k, k), None)
        n += 1
        if dt == "S1":
            ok = True if a.ndim != 1 else a.tobytes().decode("ascii", "replace").strip(" \x00") == str(v).strip()
        else:
            want = np.asarray(v, dtype=float)
            if k == "extcur" and not w.lfreeb:
                continue
            b = a.astype(float)
            b = b.T if b.ndim == 2 else b
            # profile arrays are padded to their fixed length
            ok = (want.shape == b.shape or (want.ndim == b.ndim == 1 and len(want) > len(b))) and \
                np.array_equal(want[:len(b)] if b.ndim == 1 else want, b, equal_nan=True)
        if not ok:
            viol.append({"key": f"foreign:load:{k}", "msg": f"{name}: {k} loaded with another value"})
    before = snapshot(w)
    w.save(f"{out}/wout_f.nc")
    after = snapshot(vmecpp.VmecWOut.from_wout_file(f"{out}/wout_f.nc"))
    n += len(before)
    for k in fdiff(before, after)[:5]:
        viol.append({"key": f"foreign:{k}", "msg": f"{name}: field {k} changed on save/load: "
                     f"{str(before.get(k))[:100]} -> {str(after.get(k))[:100]}"})
    shutil.rmtree(out)
    return {"viol": viol, "evaluations": n, "counters": {"foreign fields": n}, "states": [f"foreign/{name}"]}


# ---------------------------------------------------------------- faults

MODES = {"eio": 1, "enospc": 2, "kill": 3, "sigint": 4, "short": 5}


def fnv(path):
    if not os.path.isfile(path):
        return (-1, 0)
    h = 1469598103934665603
    b = open(path, "rb").read()
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return (len(b), h)


def attempt(w, d, target, k, mode, lib):
    """save in a forked child with the fault armed; returns (result, trace)"""
    logp = os.path.join(os.path.dirname(d), "trace")
    lfd = os.open(logp, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o600)
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = "?"
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            lib.vpf_arm(d.encode(), target.encode(), k, MODES.get(mode, 0), lfd)
            try:
                w.save(target)
                res = "ok"
            except BaseException as e:      # noqa: BLE001
                res = "raised " + type(e).__name__
            # SIGINT may still be pending in the interpreter
            try:
                for _ in range(10):
                    pass
            except BaseException:      # noqa: BLE001
                res = "ok"
            lib.vpf_disarm()
            os.write(wr, res.encode())
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    os.close(lfd)
    trace = []
    for line in open(logp):
        q = line.split()
        if len(q) == 4:
            trace.append((q[1], int(q[2]), int(q[3], 16)))
    return out.decode() or "died", trace


def case_faults(wfile, mode, ks, existing, tag2):
    """ks: which call numbers to fault"""
    lib = ctypes.CDLL(os.environ["VP_FAULTFS"])
    import vmecpp
    w = pickle.load(open(wfile, "rb"))
    base = os.path.abspath("fz")
    shutil.rmtree(base, ignore_errors=True)
    d = f"{base}/dir"
    os.makedirs(d)
    target = f"{d}/wout_t.nc"
    viol, st, n, cnt = [], set(), 0, {}

    def bad(kind, msg, k, trace):
        viol.append({"key": f"{kind}:{mode}", "msg": f"{msg} (fault {mode} at file-system call {k}"
                     f"{' ' + trace[min(k, len(trace)) - 1][0] if trace and k > 0 else ''}, target "
                     f"{'existed' if existing else 'did not exist'})", "detail": {"k": k}})

    # what a successful save stores
    w.save(target)
    new = fnv(target)
    want = {k: v for k, v in nc3.read(target)["vars"].items()}
    total = None
    os.unlink(target)
    for k in ks:
        for f in os.listdir(d):
            os.unlink(f"{d}/{f}")
        if existing:
            open(target, "wb").write(b"the previous contents of this file" * 50)
            other = f"{d}/wout_other.nc"
            open(other, "wb").write(b"unrelated")
        old = fnv(target)
        before = set(os.listdir(d))
        res, trace = attempt(w, d, target, k, mode, lib)
        if k > 0 and len(trace) < k:
            cnt["fault beyond the last call"] = cnt.get("fault beyond the last call", 0) + 1
            if total is not None:
                continue
        total = len(trace)
        now = fnv(target)
        n += 1 + len(trace)
        what = trace[k - 1][0] if 0 < k <= len(trace) else "none"
        st.add(f"{mode}/{what}/{res}/{'exist' if existing else 'new'}")
        # online trace: the path holds the old contents or the complete new ones
        for call, sz, h in trace:
            cur = (sz, h) if sz >= 0 else (-1, 0)
            if cur != old and cur != now:
                bad("partial_visible", f"during the save the target held something else: {sz} bytes at a {call} call", k, trace)
                break
            if cur == now and cur != old and res not in ("ok", "died", "raised KeyboardInterrupt"):
                bad("failed_but_replaced", "the save failed but the target had been replaced", k, trace)
                break
        complete = False
        if now[0] >= 0 and now != old:
            try:
                got = nc3.read(target)["vars"]
                complete = got.keys() == want.keys() and all(
                    got[v][:2] == want[v][:2] and got[v][2].tobytes() == want[v][2].tobytes() for v in want)
            except (nc3.Bad, KeyError, ValueError):
                complete = False
            if not complete:
                bad("partial_left", f"the target holds an incomplete file after: {res}", k, trace)
        elif now == new:
            complete = True
        if res == "ok" and not complete:
            bad("silent_failure", "save returned normally but the target does not hold the output", k, trace)
        # (an interruption may arrive when the new file is already in place)
        if res.startswith("raised") and now != old and not (complete and res == "raised KeyboardInterrupt"):
            bad("not_restored", "save raised but the target no longer holds what it held before", k, trace)
        left = set(os.listdir(d)) - before - {os.path.basename(target)}
        if res != "died" and left:
            bad("stray", f"files left behind after '{res}': {sorted(left)}", k, trace)
        if existing and open(other, "rb").read() != b"unrelated":
            bad("other_file", "an unrelated file was changed", k, trace)
        cnt[f"{mode}: {res}"] = cnt.get(f"{mode}: {res}", 0) + 1
        cnt["calls observed"] = cnt.get("calls observed", 0) + len(trace)
    shutil.rmtree(base)
    return {"viol": viol, "evaluations": n, "states": sorted(st), "counters": cnt}


def case_concurrent(wfile, other, procs, reps):
    """several processes save to one path: whoever looks sees one complete file, neighbours stay as they are"""
    import time
    ws = [pickle.load(open(f, "rb")) for f in (wfile, other)]
    base = os.path.abspath("cz")
    shutil.rmtree(base, ignore_errors=True)
    d = f"{base}/dir"
    os.makedirs(d)
    target = f"{d}/wout_t.nc"
    viol, st, n = [], set(), 0

    def content(path):
        v = nc3.read(path)["vars"]
        return {k: (x[0], x[1], x[2].tobytes()) for k, x in v.items()}

    wants, known = [], set()
    for w in ws:
        w.save(f"{base}/ref.nc")
        wants.append(content(f"{base}/ref.nc"))
        known.add(open(f"{base}/ref.nc", "rb").read())
        os.unlink(f"{base}/ref.nc")
    near = [f"{d}/wout_t.nc.tmp", f"{d}/wout_t.tmp", f"{d}/wout_t.nc~", f"{d}/.wout_t.nc.tmp", f"{d}/wout_t.nc.bak", f"{d}/tmp.nc"]
    for f in near:
        open(f, "wb").write(b"a neighbour")
    ws[0].save(target)
    pids = []
    for i in range(procs):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                for k in range(reps):
                    ws[(i + k) % 2].save(target)
                rc = 0
            except BaseException as e:      # noqa: BLE001
                with open(f"{base}/err{i}", "w") as f:
                    f.write(f"{type(e).__name__}: {e}")
            finally:
                os._exit(rc)
        pids.append(pid)
    looks, live, stop = 0, set(pids), time.time() + 150
    while live and time.time() < stop:
        for p in list(live):
            q, s = os.waitpid(p, os.WNOHANG)
            if q:
                live.discard(p)
                if s:
                    viol.append({"key": "concurrent:failed", "msg": "a save failed while another process saved to the same path: "
                                 + " ".join(open(f"{base}/{f}").read()[:200] for f in os.listdir(base) if f.startswith("err"))})
        try:
            b = open(target, "rb").read()
        except FileNotFoundError:
            viol.append({"key": "concurrent:missing", "msg": "the target vanished while it was being replaced"})
            break
        looks += 1
        if b not in known:
            open(f"{base}/seen.nc", "wb").write(b)
            try:
                good = content(f"{base}/seen.nc") in wants
            except (nc3.Bad, KeyError, ValueError, IndexError):
                good = False
            if not good:
                viol.append({"key": "concurrent:partial", "msg": f"a reader saw an incomplete file of {len(b)} bytes while two processes saved"})
                break
            known.add(b)
    import signal
    for p in live:
        os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
    n = looks + procs * reps
    for f in near:
        if not os.path.exists(f) or open(f, "rb").read() != b"a neighbour":
            viol.append({"key": "concurrent:neighbour", "msg": f"saving to wout_t.nc changed or removed {os.path.basename(f)}"})
    left = set(os.listdir(d)) - {os.path.basename(f) for f in near} - {"wout_t.nc"}
    if left and not live:
        viol.append({"key": "concurrent:stray", "msg": f"files left behind: {sorted(left)}"})
    shutil.rmtree(base)
    return {"viol": viol[:3], "evaluations": n, "states": [f"concurrent/{procs}"],
            "counters": {"looks at a path being replaced": looks, "concurrent saves": procs * reps}}


def case_badsave(wfile):
    """saves that must fail by themselves leave everything as it was"""
    w = pickle.load(open(wfile, "rb"))
    base = os.path.abspath("bz")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(f"{base}/adir")
    os.makedirs(f"{base}/full/sub")
    viol, st, n = [], [], 0

    def listing():
        out = {}
        for r, ds, fs in os.walk(base):
            for f in ds:
                out[os.path.relpath(f"{r}/{f}", base)] = "dir"
            for f in fs:
                out[os.path.relpath(f"{r}/{f}", base)] = open(f"{r}/{f}", "rb").read()
        return out

    def variants():
        yield "h5 suffix", w, f"{base}/x.h5"
        yield "target is a directory", w, f"{base}/adir"
        yield "target is a full directory", w, f"{base}/full"
        yield "no such folder", w, f"{base}/nope/x.nc"
        yield "folder is a file", w, f"{base}/afile/x.nc"
        u = w.model_copy(deep=True)
        u.mgrid_file = "mgrid_ü.nc"
        yield "non-ascii text", u, f"{base}/t.nc"
        u = w.model_copy(deep=True)
        u.pcurr_type = "x" * 21
        yield "text too long", u, f"{base}/t.nc"
        u = w.model_copy(deep=True)
        u.__pydantic_extra__["weird"] = {"a": 1}
        yield "unsupported extra", u, f"{base}/t.nc"
        u = w.model_copy(deep=True)
        u.__pydantic_extra__["cube"] = np.zeros((2, 2, 2))
        yield "unsupported shape", u, f"{base}/t.nc"
        u = w.model_copy(deep=True)
        u.rmnc = u.rmnc[:, :-1]
        yield "inconsistent shape", u, f"{base}/t.nc"
        u = w.model_copy(deep=True)
        u.niter = 2**40
        yield "integer too large", u, f"{base}/t.nc"

    open(f"{base}/afile", "w").write("x")
    for pre in (False, True):
        for name, u, target in variants():
            if pre:
                open(f"{base}/t.nc", "wb").write(b"previous")
            before = listing()
            n += 1
            try:
                u.save(target)
                res = "ok"
            except Exception as e:      # noqa: BLE001
                res = type(e).__name__
            after = listing()
            st.append(f"bad/{name}/{res}/{pre}")
            if res != "ok":
                if after != before:
                    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                    viol.append({"key": f"bad:{name.replace(' ', '_')}", "msg": f"save failed ({name}: {res}) but "
                                 f"changed {diff}"})
            else:
                try:
                    nc3.read(target)
                except Exception as e:      # noqa: BLE001
                    viol.append({"key": f"bad_ok:{name.replace(' ', '_')}", "msg": f"{name}: save returned normally, "
                                 f"but there is no readable file: {e}"})
                if os.path.exists(f"{base}/t.nc"):
                    os.unlink(f"{base}/t.nc")
    shutil.rmtree(base)
    return {"viol": viol, "evaluations": n, "states": st, "counters": {"failing saves": n}}


def case_make(path, name):
    w = work.solve(work.canonical(name), True).wout
    pickle.dump(w, open(path, "wb"))
    return {"evaluations": 0}


FOREIGN = ["wout_LandremanSengupta2019_section5.4_B2_A80_reference.nc", "wout_circular_tokamak_reference.nc",
           "wout_cma.nc", "wout_cth_like_fixed_bdy.nc", "wout_cth_like_free_bdy.nc", "wout_li383_low_res_reference.nc",
           "wout_solovev.nc", "wout_solovev_free_bdy.nc", "wout_solovev_no_axis.nc"]


FS = ("case_faults", "case_badsave", "case_concurrent")


def main(ctx):
    ctx.package()
    so = f"{ctx.scratch}/faultfs.so"
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, f"{core.VERIF}/shim/faultfs/faultfs.c", "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        raise core.HarnessError(r.stderr)
    files = {}
    mk = []
    for name in ("solovev", "up_down_asym"):
        files[name] = f"{ctx.scratch}/{name}.pkl"
        mk.append({"fn": "case_make", "tag": name, "path": files[name], "name": name})
    ctx.run_cases(mk, env=ctx.env(), on_timeout="inconclusive", timeout=120)

    cases = []
    canon = work.CANONICAL + work.FREE
    nr = 40 if ctx.thorough else 8
    for s in work.specs(ctx, nr, canon=canon):
        cases.append({"fn": "case_lossless", "tag": s.get("canon", f"r{s.get('i')}"), "spec": s,
                      "scr": 6 if ctx.thorough else 2})
    for name, sq in (("solovev", "geo"), ("solovev", "nyq"), ("up_down_asym", "geo"), ("up_down_asym", "nyq"), ("cth", "geo"), ("cth_lasym", "geo")):
        cases.append({"fn": "case_lossless", "tag": f"{name}/square_{sq}", "spec": {"canon": name, "square": sq}, "scr": 1})
    for name in ("solovev", "cth", "up_down_asym"):
        cases.append({"fn": "case_notconverged", "tag": name, "name": name})
    for f in FOREIGN:
        cases.append({"fn": "case_foreign", "tag": f[5:20], "name": f})
    if getattr(ctx, "only", None) and ctx.only["fn"] not in FS:
        cases = [ctx.only]
    elif getattr(ctx, "only", None):
        cases = []
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=240)

    fc = []
    step = 1
    for name in ("solovev", "up_down_asym"):
        for ex in (False, True):
            for mode in MODES:
                # every one of the first and last calls, and a sample between
                allk = list(range(0, 320))
                if not ctx.thorough:
                    keep = set(range(0, 9)) | set(range(9, 320, 7 if mode in ("kill", "enospc") else 11)) \
                        | set(range(225, 275))
                    allk = [k for k in allk if k in keep and not (name == "up_down_asym" and k % 2)]
                for part in range(0, len(allk), 40):
                    fc.append({"fn": "case_faults", "tag": f"{name}/{mode}/{ex}/{part}", "wfile": files[name],
                               "mode": mode, "ks": allk[part:part + 40], "existing": ex, "tag2": name})
        fc.append({"fn": "case_badsave", "tag": f"bad/{name}", "wfile": files[name]})
    for procs in (2, 3):
        fc.append({"fn": "case_concurrent", "tag": f"concurrent{procs}", "wfile": files["solovev"], "other": files["up_down_asym"],
                   "procs": procs, "reps": 400 if ctx.thorough else 40})
    if getattr(ctx, "only", None):
        fc = []
        if ctx.only["fn"] in FS:
            c = dict(ctx.only)
            if "other" in c:
                c["other"] = files[os.path.basename(c["other"])[:-4]]
            c["wfile"] = files[os.path.basename(c["wfile"])[:-4]]
            fc = [c]
    ctx.run_cases(fc, env=ctx.env(LD_PRELOAD=so, VP_FAULTFS=so), on_timeout="inconclusive", timeout=240)
    return ctx.finish(
        "exploration",
        "field-by-field comparison of saved and loaded outputs, independent reading of the file's classic layout, and "
        "an online trace of what the target path holds at every file-system call while faults are injected",
        ["faults are injected at the C library boundary (write, rename, close, open, truncate, sync); removing a file "
         "never fails", "process death is SIGKILL; loss of unsynced data on power failure is not modelled"],
        min_evaluations=2000, min_states=30)
