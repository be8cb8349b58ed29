"""C04: bad input is reported as an exception, never a crash, hang or silent success.

Mutated inputs are given to every entry point of a long-lived process built with
AddressSanitizer, UBSan and library assertions (and, for allocation failures, to
an ordinary build with limited address space).  The monitors: the process is
still alive and no sanitizer reported; the call ended in time with an ordinary
exception or a result; an input from the definitely-bad class never gives a
result; afterwards a reference run in the same process still gives the reference
result bit for bit."""
import contextlib
import copy
import json
import math
import os
import pathlib
import resource
import shutil
import sys
import tempfile
import time

import numpy as np

from vplib import inputs as I
from vplib import work

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAN, INF = float("nan"), float("inf")
BIG = [2**31 - 1, -2**31, 2**31, 2**32 + 3, 2**62, -2**63, 10**30]

_docs = {}


def doc(kind):
    """complete JSON document of a small valid input"""
    if kind not in _docs:
        if kind == "tok":
            d = I.single(I.base("solovev"), 5, 1e-8, 150)
        elif kind == "multi":
            d = I.multi(I.base("solovev"), [5, 7], [1e-6, 1e-8], 150)
        elif kind == "lasym":
            d = I.single(I.base("up_down_asym"), 5, 1e-7, 150)
        elif kind == "cth":
            d = I.single(work.canonical("cth"), 5, 1e-5, 200)
        elif kind == "spline":
            d = I.single(work.canonical("cth_spline"), 5, 1e-5, 200)
        elif kind == "fb":
            d = I.single(work.canonical("fb_solovev"), 5, 1e-5, 150)
        elif kind == "fb3":
            d = I.single(work.canonical("fb_cth"), 5, 1e-4, 60)
        d = dict(d)
        coils = d.pop("_coils", None)
        full = json.loads(I.mk(d).to_json())
        for k in ("rbc", "zbs", "rbs", "zbc"):
            if k in d:
                full[k] = d[k]
        _docs[kind] = ({k: v for k, v in full.items() if v is not None}, coils)
    d, coils = _docs[kind]
    return copy.deepcopy(d), coils


KINDS = ["tok", "multi", "lasym", "cth", "spline", "fb", "fb3"]
SIZES = ("nfp", "mpol", "ntor", "ntheta", "nzeta", "mpol_geometry", "ntor_geometry")
PROFILES = ["power_series", "gauss_trunc", "two_power", "two_power_gs", "two_lorentz", "pedestal", "rational", "line_segment",
            "line_segment_i", "line_segment_ip", "cubic_spline", "cubic_spline_i", "cubic_spline_ip", "akima_spline",
            "akima_spline_i", "akima_spline_ip", "nice_quadratic", "sum_atan", "sum_cossq_s", "sum_cossq_sqrts", "sum_cossq_s_free",
            "power_series_i"]


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def wrong_type(rng):
    return pick(rng, [None, "x", "", [], {}, [1, 2], True, 1.5, -1, [[1.0]], ["a"], [None], "NaN", 3])


def mut_value(rng, key, v, big):
    """a hostile value for a field"""
    r = rng.random()
    if r < 0.2:
        return wrong_type(rng)
    if isinstance(v, bool):
        return pick(rng, [not v, int(v), "true", None, 2])
    if isinstance(v, int):
        small = [-1, 0, 1, 2, 3, v + 1, v - 1, 2 * v + 1, -v]
        if big and rng.random() < 0.5:
            return pick(rng, BIG)
        return pick(rng, small)
    if isinstance(v, float):
        return pick(rng, [0.0, -0.0, -1.0, -v, 1e-308, 5e-324, 1e300, -1e300, 1e200, 0.5, 1.0, 2.0, 10.0, 11.0, NAN, INF, -INF, 10**30])
    if isinstance(v, str):
        return pick(rng, ["", "X", v.upper(), v + " ", "é" * 3, "a" * 5000, "a\u0000b", "NONE", "/", "/dev/null", "/proc/self/mem"[:5],
                          pick(rng, PROFILES), "nestor", "only_coils", "biest", "parvmec"])
    if isinstance(v, list):
        w = copy.deepcopy(v)
        op = int(rng.integers(12))
        if op == 0:
            return []
        if op == 1:
            return w[:max(0, len(w) - 1)]
        if op == 2:
            return w + w[-1:] if w else [1.0]
        if op == 3:
            return w * 7 if w else [1.0] * 7
        if op == 4:
            return [w]
        if op == 5:
            return w[::-1]
        if not w:
            return pick(rng, [[0.0], [1], [NAN], [1.0] * 25, [-1.0, 1.0]])
        i = int(rng.integers(len(w)))
        if isinstance(w[i], dict):
            q = int(rng.integers(7))
            if q == 0:
                w[i].pop(pick(rng, sorted(w[i])))
            elif q == 1:
                w[i]["m"] = pick(rng, [-1, 100, 1.5, "1", None, 2**31 - 1, -2**31, 2**40, [1]])
            elif q == 2:
                w[i]["n"] = pick(rng, [-100, 100, 0.5, "1", None, 2**31 - 1, -2**31, 2**40, [1]])
            elif q == 3:
                w[i]["value"] = pick(rng, [None, "1", NAN, 1e300, -1e300, [], 0, 10**30, True])
            elif q == 4:
                w[i] = wrong_type(rng)
            elif q == 5:
                w[i]["value"] = -w[i]["value"] * 3
            else:
                w.append(dict(w[i]))
            return w
        w[i] = pick(rng, [None, "x", NAN, INF, -INF, 1e300, -1e300, 0, -1, -w[i] if isinstance(w[i], (int, float)) else 0, [], 2**31 if big else 0, 10**30, 1.5])
        return w
    return wrong_type(rng)


def mut_profile(rng, d):
    k = pick(rng, ["pmass_type", "piota_type", "pcurr_type"])
    d[k] = pick(rng, PROFILES)
    a = {"pmass_type": "am", "piota_type": "ai", "pcurr_type": "ac"}[k]
    if rng.integers(2):
        d[a] = pick(rng, [[], [1.0], [1.0, 2.0, 3.0], [0.0] * 22, [1.0] * 21, [NAN], [1e300] * 3, [0.0]])
    n = int(rng.integers(0, 8))
    s = sorted(float(x) for x in rng.random(n))
    d[a + "_aux_s"] = pick(rng, [s, s[::-1], [0.0] * n, [0.0, 0.0, 1.0, 1.0], [NAN] * n, [], [0.0, 1.0], [-1.0, 0.5, 2.0], [0.5, 0.6]])
    d[a + "_aux_f"] = [float(x) for x in rng.standard_normal(pick(rng, [len(d[a + "_aux_s"]), n, n + 1, 0]))]
    if rng.random() < 0.3:
        d["ncurr"] = int(rng.integers(2))


def mutate(rng, d, big):
    label = []
    for _ in range(1 if rng.random() < 0.7 else 2):
        r = rng.random()
        if r < 0.7:
            k = pick(rng, sorted(d))
            if k in ("niter_array",) and rng.random() < 0.5:
                continue
            label.append(k)
            d[k] = mut_value(rng, k, d[k], big)
            if k == "niter_array" and isinstance(d[k], list):
                d[k] = [min(x, 200) if isinstance(x, (int, float)) and x == x else x for x in d[k]]
        elif r < 0.8:
            k = pick(rng, sorted(d))
            label.append("-" + k)
            d.pop(k)
        elif r < 0.9:
            label.append("profile")
            mut_profile(rng, d)
        elif r < 0.94:
            label.append("lasym")
            d["lasym"] = not d.get("lasym")
        elif r < 0.97:
            label.append("lfreeb")
            d["lfreeb"] = not d.get("lfreeb")
            d["mgrid_file"] = pick(rng, ["NONE", "", "/nonexistent/mgrid.nc", "/", "/dev/null"])
        else:
            label.append("+unknown")
            d[pick(rng, ["unknown", "", "RBC", "ns", "é"])] = wrong_type(rng)
    return "+".join(label) or "none"


def too_large(d):
    """legal but large problems are slow, not bad: kept out"""
    def num(v, lim):
        return isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and lim < abs(v) < 2**30
    if any(num(d.get(k), 40) for k in SIZES) or num(d.get("nfp"), 200):
        return True
    for k, lim in (("ns_array", 60), ("niter_array", 400)):
        v = d.get(k)
        if isinstance(v, list) and any(num(x, lim) for x in v):
            return True
    for k in ("mpol", "ntor"):
        v = d.get(k)
        if isinstance(v, list) and (len(v) > 4 or any(num(x, 20) for x in v)):
            return True
    return False


def bytes_of(rng, text):
    b = bytearray(text.encode())
    op = int(rng.integers(9))
    if op == 0:
        return bytes(b[:int(rng.integers(len(b)))])
    if op == 1:
        for _ in range(int(rng.integers(1, 6))):
            b[int(rng.integers(len(b)))] = int(rng.integers(256))
        return bytes(b)
    if op == 2:
        i, j = sorted(int(x) for x in rng.integers(len(b), size=2))
        return bytes(b[:i] + b[j:])
    if op == 3:
        i = int(rng.integers(len(b)))
        return bytes(b[:i] + bytes(rng.integers(0, 256, int(rng.integers(1, 20)), dtype=np.uint8)) + b[i:])
    if op == 4:
        return pick(rng, [b"", b"\0", b"{", b"[]", b"null", b"1", b'"x"', b"\xef\xbb\xbf{}", b"\xff\xfe{\0}\0", b"{}{}", b"&INDATA\n/\n", b"&INDATA",
                          b" &indata\n mpol = x\n/", b"{}", b"! comment\n&INDATA\n"])
    if op == 5:
        n = int(rng.integers(1, 20000))
        return b"[" * n + (b"]" * n if rng.integers(2) else b"")
    if op == 6:
        n = int(rng.integers(1, 5000))
        return b'{"rbc":' + b'[{"m":' * n + b"1" + b"}]" * n + b"}"
    if op == 7:
        # numbers out of range and duplicated keys
        return text.replace("1", pick(rng, ["1e999", "-1e999", "1" * 400, "1e-999", "01", "0x1", "+1", "1.", ".1", "1_0"]), 1).encode()
    return (text[:-1] + "," + text[1:]).encode()


@contextlib.contextmanager
def scratch():
    where = os.path.realpath(tempfile.mkdtemp(prefix="c04."))
    old = os.getcwd()
    try:
        os.chdir(where)
        yield pathlib.Path(where)
    finally:
        os.chdir(old)
        shutil.rmtree(where, ignore_errors=True)


_ref = {}


def healthy():
    """the process still computes: reference result, bit for bit"""
    import vmecpp
    if "in" not in _ref:
        d, _ = doc("tok")
        d["niter_array"] = [400]
        _ref["in"] = I.mk(d)
    out = vmecpp.run(_ref["in"], max_threads=1, verbose=False).wout
    sig = (out.volume, out.wb, out.rmnc.tobytes(), out.lmns_full.tobytes() if hasattr(out, "lmns_full") else b"", out.iotaf.tobytes())
    if "sig" not in _ref:
        _ref["sig"] = sig
    return sig == _ref["sig"]


ORDINARY = Exception


def probe(fn):
    """call, -> (outcome, value, seconds)"""
    t = time.time()
    try:
        v = fn()
        return "result", v, time.time() - t
    except ORDINARY as e:
        return f"{type(e).__name__}", e, time.time() - t


def field(coils):
    if not coils:
        return None
    from vplib import freeb
    return freeb.table(coils[0], **coils[1])


def finite_wout(w):
    for k in ("volume", "wb", "aspect", "b0"):
        if not math.isfinite(float(getattr(w, k))):
            return k
    for k in ("rmnc", "zmns", "iotaf", "presf", "gmnc"):
        if not np.all(np.isfinite(getattr(w, k))):
            return k
    return None


def finish(viol, case, label, what, out, v, dt, limit=60.0):
    if dt > limit:
        viol.append(dict(key=f"slow/{what}", msg=f"{what} {label}: took {dt:.0f} s", detail=dict(case=case)))


def limits(big):
    if big:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))


def announce(x):
    sys.stderr.write("PROBE " + json.dumps(x)[:3000] + "\n")
    sys.stderr.flush()


def case_input(seed, n, route, big=False, tag=None):
    """mutated input documents through one route"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    limits(big)
    viol, states, cnt = [], set(), {}
    for i in range(n):
        rng = np.random.default_rng([seed, i, 4])
        kind = pick(rng, KINDS)
        d, coils = doc(kind)
        base, _ = doc(kind)
        label = mutate(rng, d, big)
        if too_large(d):
            continue
        case = dict(fn="case_input", seed=seed, n=n, route=route, big=big)
        announce(dict(i=i, kind=kind, label=label, route=route, changed={k: d.get(k, "-") for k in set(d) | set(base) if d.get(k, "-") != base.get(k, "-")}))
        threads = pick(rng, [1, 1, 2, 5])
        # the table is made by the library as well: use it unless the run is meant to read a file
        with scratch() as where:
            def go():
                if route == "file":
                    (where / "x.json").write_text(json.dumps(d))
                    inp = vmecpp.VmecInput.from_file(where / "x.json")
                    return vmecpp.run(inp, magnetic_field=field(coils) if inp.lfreeb and rng.integers(4) else None, max_threads=threads, verbose=False).wout
                if route == "bytes":
                    (where / pick(rng, ["x.json", "input.x", "x"])).write_bytes(bytes_of(rng, json.dumps(d)))
                    f = next(where.iterdir())
                    inp = vmecpp.VmecInput.from_file(f)
                    return vmecpp.run(inp, magnetic_field=field(coils) if inp.lfreeb else None, max_threads=threads, verbose=False).wout
                if route == "cppbytes":
                    t = bytes_of(rng, json.dumps(d))
                    (where / "x.json").write_bytes(t)
                    ind = _vmecpp.VmecINDATA.from_file(where / "x.json")
                    return _vmecpp.run(ind, max_threads=threads, verbose=_vmecpp.OutputMode.SILENT).wout
                if route == "cpp":
                    (where / "x.json").write_text(json.dumps(d))
                    ind = _vmecpp.VmecINDATA.from_file(where / "x.json")
                    kw = {}
                    if ind.lfreeb and coils:
                        kw = dict(magnetic_response_table=field(coils)._to_cpp_magnetic_field_response_table())
                    return _vmecpp.run(ind, max_threads=threads, verbose=_vmecpp.OutputMode.SILENT, **kw).wout
                if route in ("set", "cppset"):
                    inp = I.mk(base)
                    if route == "cppset":
                        inp = inp._to_cpp_vmecindata()
                    for k in sorted(set(d) | set(base)):
                        if k in d and d.get(k) != base.get(k):
                            val = d[k]
                            if isinstance(val, list) and not (val and isinstance(val[0], dict)) and rng.random() < 0.8:
                                try:
                                    val = np.asarray(val, dtype=rng.choice([float, np.int64]))
                                except (TypeError, ValueError, OverflowError):
                                    pass
                            if k in ("rbc", "zbs", "rbs", "zbc"):
                                val = pick(rng, [np.zeros((3, 3)), np.zeros((0, 0)), np.zeros(5), None, np.full(np.shape(getattr(inp, k)), NAN),
                                                 np.zeros((inp.mpol if isinstance(inp.mpol, int) else 3, 2)), "x"])
                            setattr(inp, k, val)
                    if route == "cppset":
                        kw = {}
                        if inp.lfreeb and coils:
                            kw = dict(magnetic_response_table=field(coils)._to_cpp_magnetic_field_response_table())
                        return _vmecpp.run(inp, max_threads=threads, verbose=_vmecpp.OutputMode.SILENT, **kw).wout
                    return vmecpp.run(inp, magnetic_field=field(coils) if inp.lfreeb else None, max_threads=threads, verbose=False).wout
            out, v, dt = probe(go)
            finish(viol, case, label, route, out, v, dt)
        cnt[f"{route}: {out}"] = cnt.get(f"{route}: {out}", 0) + 1
        states.add(f"{route}:{kind}:{label.split('+')[0]}:{out}")
        if out == "result":
            bad = finite_wout(v)
            # outputs of a failed run were asked for: whatever state there is
            if bad and not d.get("return_outputs_even_if_not_converged"):
                viol.append(dict(key=f"silent/nonfinite/{label}", msg=f"{kind} with changed {label}: success with non-finite {bad}", detail=dict(case=case, i=i)))
        if rng.random() < 0.15 and not healthy():
            viol.append(dict(key="health", msg=f"after {label} ({out}) the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=n, counters=cnt)


# ---------------------------------------------------------------- other entry points

def outcome(viol, states, cnt, case, i, fam, label, fn, must=False, limit=60.0):
    announce(dict(i=i, fam=fam, label=label))
    out, v, dt = probe(fn)
    if dt > limit:
        viol.append(dict(key=f"slow/{fam}/{label}", msg=f"{fam} {label}: took {dt:.0f} s", detail=dict(case=case, i=i)))
    cnt[f"{fam}: {out}"] = cnt.get(f"{fam}: {out}", 0) + 1
    states.add(f"{fam}:{label}:{out}")
    if out == "result" and must:
        viol.append(dict(key=f"silent/{fam}/{label}", msg=f"{fam} with {label} was accepted", detail=dict(case=case, i=i)))
    return out, v


def solved(kind):
    """a valid input, its result and its field table (per process)"""
    import vmecpp
    if ("out", kind) not in _ref:
        d, coils = doc(kind)
        d["niter_array"] = [3000] * len(d["ns_array"])
        inp = I.mk(d)
        _ref["out", kind] = (inp, vmecpp.run(inp, magnetic_field=field(coils), max_threads=1, verbose=False), coils)
    return _ref["out", kind]


def case_restart(seed, n, tag=None):
    """mismatched or damaged restart states"""
    import vmecpp
    viol, states, cnt = [], set(), {}
    for i in range(n):
        rng = np.random.default_rng([seed, i, 41])
        case = dict(fn="case_restart", seed=seed, n=n)
        a, b = pick(rng, KINDS), pick(rng, KINDS)
        if rng.integers(2):
            b = a
        inp, _, coils = solved(a)
        src = solved(b)[1]
        inp = inp.model_copy(deep=True)
        inp.ns_array, inp.ftol_array, inp.niter_array = inp.ns_array[-1:], inp.ftol_array[-1:], np.array([40])
        label, must = f"{a}<-{b}" if a != b else "same", False
        src = src.model_copy(deep=True)
        op = int(rng.integers(9))
        arrays = ["rmnc", "zmns", "lmns_full"] + (["rmns", "zmnc", "lmnc_full"] if inp.lasym else [])
        if op == 0:
            k = pick(rng, arrays)
            x = getattr(src.wout, k)
            if x is not None:
                setattr(src.wout, k, pick(rng, [x[:, :-1], x[:-1], np.zeros((0, 0)), x.T.copy(), np.vstack([x, x]), np.zeros((0, x.shape[1]))]))
                label += ":shape"
                must = True
        elif op == 1:
            k = pick(rng, arrays)
            x = getattr(src.wout, k)
            if x is not None:
                x = x.copy()
                x[int(rng.integers(x.shape[0])), int(rng.integers(x.shape[1]))] = pick(rng, [NAN, INF, -INF, 1e300])
                setattr(src.wout, k, x)
                label += ":value"
        elif op == 2:
            k = pick(rng, ["ns", "mpol", "ntor", "nfp"])
            setattr(src.wout, k, pick(rng, [0, -1, 1, getattr(src.wout, k) + 1, 1000, 2**31 - 1]))
            label += ":" + k
        elif op == 3:
            src.input.mpol = pick(rng, [2, src.input.mpol + 1, 12])
            label += ":inmpol"
        elif op == 4:
            src.input.ns_array = pick(rng, [np.array([3]), np.array([], dtype=np.int64), np.array([5, 11])])
            label += ":inns"
        elif op == 5:
            inp.ns_array = np.array([int(pick(rng, [3, 4, 6, 9]))])
            label += ":ns"
            must = int(inp.ns_array[0]) != src.wout.ns
        elif op == 6:
            inp.mpol = int(pick(rng, [2, 3, 9]))
            label += ":mpol"
        elif op == 7:
            src.wout.lasym = not src.wout.lasym
            label += ":lasym"
        if a != b and (solved(a)[0].mpol, solved(a)[0].ntor, solved(a)[0].lasym) != (solved(b)[0].mpol, solved(b)[0].ntor, solved(b)[0].lasym) and op > 7:
            must = True
        outcome(viol, states, cnt, case, i, "restart", label,
                lambda: vmecpp.run(inp, magnetic_field=field(coils), max_threads=pick(rng, [1, 2]), verbose=False, restart_from=src), must)
        if rng.random() < 0.1 and not healthy():
            viol.append(dict(key="health", msg=f"after restart {label} the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=n, counters=cnt)


def case_table(seed, n, tag=None):
    """damaged or mismatched external field tables"""
    import vmecpp
    viol, states, cnt = [], set(), {}
    for i in range(n):
        rng = np.random.default_rng([seed, i, 42])
        case = dict(fn="case_table", seed=seed, n=n)
        kind = pick(rng, ["fb", "fb3"])
        d, coils = doc(kind)
        inp = I.mk(d)
        t = field(coils)
        if rng.integers(4):
            t = t.model_copy(deep=True)
        else:
            t = t.model_copy()
            t.parameters = t.parameters.model_copy()
        op, must, label = int(rng.integers(10)), True, ""
        arr = pick(rng, ["b_r", "b_p", "b_z"])
        x = getattr(t, arr)
        if op == 0:
            setattr(t, arr, pick(rng, [x[:, :-1], x[:, : x.shape[1] // 2], np.zeros((x.shape[0], 0)), np.zeros((0, 0))]).copy())
            label = "short"
        elif op == 1:
            setattr(t, arr, pick(rng, [x[:-1], x[:0], np.vstack([x, x])]).copy())
            label = "circuits"
        elif op == 2:
            k = pick(rng, ["number_of_r_grid_points", "number_of_z_grid_points", "number_of_phi_grid_points"])
            old = getattr(t.parameters, k)
            setattr(t.parameters, k, pick(rng, [0, 1, -1, -5, old + 1, old - 1, 2**31 - 1, 10000]))
            label = "size:" + k
            must = getattr(t.parameters, k) != old
        elif op == 3:
            k = pick(rng, ["r_grid_minimum", "r_grid_maximum", "z_grid_minimum", "z_grid_maximum"])
            setattr(t.parameters, k, pick(rng, [NAN, INF, -INF, 1e300]))
            label = "range:" + k
            must = False
        elif op == 4:
            t.parameters.r_grid_minimum, t.parameters.r_grid_maximum = t.parameters.r_grid_maximum, t.parameters.r_grid_minimum
            label = "reversed"
            must = False
        elif op == 5:
            y = x.copy()
            y[:, int(rng.integers(y.shape[1]))::int(rng.integers(1, 50))] = pick(rng, [NAN, INF, 1e300])
            setattr(t, arr, y)
            label = "values"
            must = False
        elif op == 6:
            t.parameters.number_of_field_periods = pick(rng, [0, -1, 7, 2**31 - 1])
            label = "nfp"
            must = False
        elif op == 7:
            inp.extcur = pick(rng, [np.array([]), inp.extcur[:-1], np.append(inp.extcur, 1.0), np.full(40, 1.0)])
            label = "extcur"
            must = inp.extcur.size != t.b_r.shape[0]
        elif op == 8:
            inp.extcur = inp.extcur * pick(rng, [NAN, INF, 1e200, 0.0, -1.0])
            label, must = "currents", False
        else:
            inp.nzeta = int(pick(rng, [1, 2, 5, 13, 24]))
            label, must = "nzeta", inp.nzeta != t.parameters.number_of_phi_grid_points
        outcome(viol, states, cnt, case, i, "table", f"{kind}:{label}",
                lambda: vmecpp.run(inp, magnetic_field=t, max_threads=pick(rng, [1, 3]), verbose=False), must)
        if rng.random() < 0.1 and not healthy():
            viol.append(dict(key="health", msg=f"after table {label} the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=n, counters=cnt)


def write_mgrid(path, t, extra=None, fmt="NETCDF3_CLASSIC"):
    """mgrid file as makegrid writes it; extra(name, value) may change an item or drop it (None)"""
    import netCDF4
    p = t.parameters
    nr, nz, nphi, nc = p.number_of_r_grid_points, p.number_of_z_grid_points, p.number_of_phi_grid_points, t.b_r.shape[0]
    items = dict(ir=np.int32(nr), jz=np.int32(nz), kp=np.int32(nphi), nfp=np.int32(p.number_of_field_periods), nextcur=np.int32(nc),
                 rmin=p.r_grid_minimum, rmax=p.r_grid_maximum, zmin=p.z_grid_minimum, zmax=p.z_grid_maximum,
                 mgrid_mode=np.array([b"R"]), raw_coil_cur=np.ones(nc))
    for c in range(nc):
        for a, b in (("br", "b_r"), ("bp", "b_p"), ("bz", "b_z")):
            items[f"{a}_{c + 1:03d}"] = getattr(t, b)[c].reshape(nphi, nz, nr)
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        for k, v in items.items():
            if extra:
                v = extra(k, v)
                if v is None:
                    continue
            v = np.asarray(v)
            dims = []
            for j, m in enumerate(v.shape):
                nm = f"d_{k}_{j}"
                f.createDimension(nm, m)
                dims.append(nm)
            f.createVariable(k, v.dtype if v.dtype.kind != "S" else "S1", tuple(dims))
            f.variables[k][...] = v


def case_mgrid(seed, n, tag=None):
    """damaged mgrid files"""
    import vmecpp
    from vplib import freeb
    viol, states, cnt = [], set(), {}
    t = freeb.table("solovev", nr=21)
    with scratch() as where:
        write_mgrid(where / "good.nc", t)
        good = (where / "good.nc").read_bytes()
        # classic files store the values after the header, padded to four bytes
        import netCDF4
        with netCDF4.Dataset(where / "good.nc") as g:
            header = len(good) - sum(-(-int(np.prod(v.shape, dtype=int)) * v.dtype.itemsize // 4) * 4 for v in g.variables.values())
        for i in range(n):
            rng = np.random.default_rng([seed, i, 43])
            case = dict(fn="case_mgrid", seed=seed, n=n)
            d, _ = doc("fb")
            f = where / "m.nc"
            with contextlib.suppress(FileNotFoundError, IsADirectoryError):
                f.unlink()
            op, must = int(rng.integers(7)), False
            if op == 0:
                cut = int(rng.integers(len(good))) if rng.integers(2) else int(rng.integers(header))
                f.write_bytes(good[:cut])
                label, must = ("truncated_header" if cut < header else "truncated_data"), True
            elif op == 1:
                b = bytearray(good)
                for _ in range(int(rng.integers(1, 8))):
                    b[int(rng.integers(min(len(b), 3000)))] = int(rng.integers(256))
                f.write_bytes(bytes(b))
                label = "bytes"
            elif op == 2:
                k = pick(rng, ["ir", "jz", "kp", "nfp", "nextcur", "rmin", "rmax", "zmin", "zmax", "mgrid_mode", "br_001", "bz_001", "bp_001"])
                write_mgrid(f, t, lambda q, v: None if q == k else v)
                label, must = "missing:" + k, True
            elif op == 3:
                k = pick(rng, ["ir", "jz", "kp", "nfp", "nextcur"])
                val = pick(rng, [-1, 0, 1, 2, -2**31, 2**31 - 1, 100000, 22, 46341])
                write_mgrid(f, t, lambda q, v: np.int32(val) if q == k else v)
                label, must = f"value:{k}", k != "nfp" and not (k in ("kp", "nextcur") and val == 1)
            elif op == 4:
                k = pick(rng, ["ir", "jz", "kp", "nfp", "nextcur", "rmin", "rmax", "zmin", "zmax", "mgrid_mode", "br_001", "bz_001", "bp_001"])
                val = pick(rng, [np.zeros(0), np.zeros((2, 2)), np.float32(1), np.array([b"x", b"y"]), np.zeros((1, 1, 1)), np.zeros((1, 21, 20)), np.zeros((0, 21, 21)),
                                 np.int16(3), np.array([1, 2, 3], dtype=np.int32)])
                write_mgrid(f, t, lambda q, v: val if q == k else v)
                label = f"type:{k}"
            elif op == 5:
                k = pick(rng, ["rmin", "rmax", "zmin", "zmax"])
                val = pick(rng, [NAN, INF, -INF, 1e300, 0.0, -5.0])
                write_mgrid(f, t, lambda q, v: val if q == k else v)
                label = f"range:{k}"
            else:
                q = int(rng.integers(6))
                label, must = f"file{q}", True
                if q == 0:
                    f.write_bytes(b"")
                elif q == 1:
                    f.write_bytes(bytes(rng.integers(0, 256, 500, dtype=np.uint8)))
                elif q == 2:
                    f = where
                elif q == 3:
                    f = where / "none.nc"
                elif q == 4:
                    f = pathlib.Path("/dev/null")
                else:
                    f.write_bytes(b"\x89HDF\r\n\x1a\n" + bytes(200))
            d["mgrid_file"] = str(f)
            outcome(viol, states, cnt, case, i, "mgrid", label, lambda: vmecpp.run(I.mk(d), max_threads=1, verbose=False), must)
            if rng.random() < 0.1 and not healthy():
                viol.append(dict(key="health", msg=f"after mgrid {label} the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=n, counters=cnt)


def case_coils(seed, n, tag=None):
    """damaged coil files and grid parameters"""
    from vmecpp import _free_boundary as fb
    from vplib import freeb
    viol, states, cnt = [], set(), {}
    with scratch() as where:
        for i in range(n):
            rng = np.random.default_rng([seed, i, 44])
            case = dict(fn="case_coils", seed=seed, n=n)
            name = pick(rng, ["solovev", "cth_like"])
            text = open(f"{VERIF}/data/coils.{name}").read()
            lines = text.splitlines(keepends=True)
            if len(lines) > 120:
                # keep complete filaments: cut after the last end-of-coil line within the limit
                cut = max((j for j, ln in enumerate(lines[:120]) if len(ln.split()) > 4), default=len(lines) - 2)
                lines = lines[:cut + 1] + ["end\n"]
            op, must = int(rng.integers(10)), False
            f = where / "coils.x"
            p = freeb.params(name, nr=5, nphi=4 if name == "cth_like" else 1)
            if op == 0:
                b = "".join(lines).encode()
                f.write_bytes(b[:int(rng.integers(len(b)))])
                label = "truncated"
            elif op == 1:
                b = bytearray("".join(lines).encode())
                for _ in range(int(rng.integers(1, 10))):
                    b[int(rng.integers(len(b)))] = int(rng.integers(256))
                f.write_bytes(bytes(b))
                label = "bytes"
            elif op == 2:
                j = int(rng.integers(len(lines)))
                f.write_text("".join(lines[:j] + lines[j + 1:]))
                label = "line_dropped"
            elif op == 3:
                j = int(rng.integers(len(lines)))
                q = pick(rng, ["\n", "x y z c\n", "1 2\n", "nan nan nan nan\n", "1e999 0 0 1\n", "1 2 3 4 5 6 7\n", "end\n", "begin filament\n", "periods\n",
                               "periods -1\n", "periods 0\n", "periods 99999999999\n", "mirror NUL\n", "0 0 0 0 1\n", "\0\n", "1" * 5000 + "\n"])
                f.write_text("".join(lines[:j] + [q] + lines[j:]))
                label = "line_inserted"
            elif op == 4:
                f.write_bytes(pick(rng, [b"", b"\0\0", b"\xff\xfe", b"begin", b"end\n", b"periods 1\nbegin filament\nmirror NIL\nend\n",
                                         b"periods 1\nbegin filament\nmirror NIL\n1 0 0 1\n1 0 0 0 1 A\nend\n",
                                         b"periods 1\nbegin filament\nmirror NIL\n1 0 0 0 1 A\nend\n",
                                         b"periods 1\nbegin filament\nmirror NIL\n1 0 0 0 1 1 A\nend\n", b"\n" * 1000]))
                label = "minimal"
            elif op == 5:
                f = pick(rng, [where, where / "none", pathlib.Path("/dev/null")])
                label, must = "path", True
            elif op == 6:
                j = int(rng.integers(len(lines)))
                w = lines[j].split()
                if w:
                    w[int(rng.integers(len(w)))] = pick(rng, ["nan", "inf", "x", "1e999", "-0", "", "1e300", "99999999999999999999", "0x10"])
                lines[j] = " ".join(w) + "\n"
                f.write_text("".join(lines))
                label = "token"
            else:
                f.write_text("".join(lines))
                k = pick(rng, list(type(p).model_fields))
                v0 = getattr(p, k)
                if isinstance(v0, bool):
                    continue
                if isinstance(v0, int):
                    v = pick(rng, [0, -1, 1, -2**31, 2**31 - 1, v0 + 1, v0 - 1])
                    must = v < 1 or v == 2**31 - 1 and k.startswith("number_of_") and "field" not in k
                    if v == 2**31 - 1 and k.startswith("number_of_") and "field" not in k:
                        continue      # legal, merely too large
                else:
                    v = pick(rng, [NAN, INF, -INF, 1e300, -1e300, 0.0, -v0])
                    must = not math.isfinite(v)
                setattr(p, k, v)
                label = "param:" + k
                if rng.integers(2):
                    # the same through a parameter file
                    g = where / "p.json"
                    g.write_text(json.dumps({q: getattr(p, q) for q in type(p).model_fields}))
                    outcome(viol, states, cnt, case, i, "paramfile", label,
                            lambda: fb.MagneticFieldResponseTable.from_coils_file(f, fb.MakegridParameters.from_file(g)), must)
                    continue
            outcome(viol, states, cnt, case, i, "coils", label, lambda: fb.MagneticFieldResponseTable.from_coils_file(f, p), must)
            g = where / "q.json"
            txt = json.dumps({q: getattr(p, q) for q in type(p).model_fields})
            if rng.integers(2):
                j = json.loads(txt)
                k = pick(rng, sorted(j))
                if rng.integers(2):
                    j.pop(k)
                else:
                    j[k] = wrong_type(rng)
                g.write_text(json.dumps(j))
            else:
                g.write_bytes(bytes_of(rng, txt))
            outcome(viol, states, cnt, case, i, "paramfile", "damaged", lambda: fb.MakegridParameters.from_file(g))
            outcome(viol, states, cnt, case, i, "paramfile", "path", lambda: fb.MakegridParameters.from_file(pick(rng, [where, where / "none.json", "/dev/null"])), True)
            if rng.random() < 0.1 and not healthy():
                viol.append(dict(key="health", msg=f"after coils {label} the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=2 * n, counters=cnt)


def case_model(seed, n, tag=None):
    """misuse of the step-by-step interface"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    viol, states, cnt = [], set(), {}
    for i in range(n):
        rng = np.random.default_rng([seed, i, 45])
        case = dict(fn="case_model", seed=seed, n=n)
        kind = pick(rng, ["tok", "multi", "lasym", "cth", "spline"])
        ind = I.mk(doc(kind)[0])._to_cpp_vmecindata()

        def go(fam, label, fn, must=False):
            return outcome(viol, states, cnt, case, i, fam, label, fn, must)
        bad_ns = pick(rng, [0, -1, 1, 2, -2**31])
        go("model", "create:ns", lambda: _vmecpp.VmecModel.create(ind, bad_ns), True)
        m = _vmecpp.VmecModel.create(ind, int(pick(rng, [3, 4, 5, 7])))
        k = m.get_state().size
        for _ in range(8):
            op = int(rng.integers(15))
            wrong = np.zeros(pick(rng, [0, 1, k - 1, k + 1, 3 * k]))
            vec = rng.standard_normal(k) * pick(rng, [1.0, 0.0, 1e-3, 1e300, NAN, INF])
            if op == 0:
                go("model", "set_state:size", lambda: m.set_state(wrong), True)
            elif op == 1:
                go("model", "set_state:values", lambda: (m.set_state(vec), m.evaluate(2, 2)))
            elif op == 2:
                go("model", "hvp:size", lambda: m.hessian_vector_product(wrong), wrong.size > 0)
            elif op == 3:
                go("model", "hvp:values", lambda: m.hessian_vector_product(vec))
            elif op == 4:
                go("model", "precond:size", lambda: m.apply_preconditioner(wrong), True)
            elif op == 5:
                go("model", "precond:values", lambda: m.apply_preconditioner(vec))
            elif op == 6:
                def reason():
                    m.restart_reason = pick(rng, [0, -1, 5, 99, 2**31 - 1])
                go("model", "restart_reason", reason, True)
            elif op == 7:
                go("model", "refine", lambda: m.refine_to(pick(rng, [0, -1, m.ns, m.ns - 1, 1])), True)
            elif op == 8:
                go("model", "evaluate:counters", lambda: m.evaluate(*pick(rng, [(0, 0), (-1, 5), (5, 1), (2**31 - 1, 2**31 - 1), (-2**31, 2**31 - 1), (1, 1)])))
            elif op == 9:
                go("model", "step", lambda: m.perform_time_step(*pick(rng, [(NAN, 0.5, 0.1), (1.0, 0.0, INF), (1e300, 1e300, 1e300), (0.9, 0.9, -1.0)])))
            elif op == 10:
                go("model", "solve", lambda: m.solve())
            elif op == 11:
                go("model", "axis", lambda: (m.recompute_axis(), m.reinitialize()))
            elif op == 12:
                go("model", "restore", lambda: (m.restore_backup(), m.evaluate(1, 1)))
            elif op == 13:
                go("model", "queries", lambda: [getattr(m, q) for q in ("fsqr", "fsqz1", "mhd_energy", "status", "restart_reasons", "raxis_c", "restart_reason")])
            else:
                other = solved(pick(rng, ["tok", "lasym", "cth"]))
                st = lambda: _vmecpp.HotRestartState(wout=other[1].wout._to_cpp_wout(), indata=other[0]._to_cpp_vmecindata())
                ns = int(pick(rng, [3, 5, 9]))
                same = (other[0].mpol, other[0].ntor, other[0].lasym, other[1].wout.ns) == (ind.mpol, ind.ntor, ind.lasym, ns)
                go("model", "create:restart", lambda: _vmecpp.VmecModel.create(ind, ns, st()), not same)
        # iteration driver
        inp = I.mk(doc(kind)[0])
        q = int(rng.integers(4))
        from vmecpp import _iteration as it
        if q == 0:
            inp.ns_array = np.array(pick(rng, [[], [2], [9, 5], [-1]]), dtype=np.int64)
            go("multigrid", "ns", lambda: it.solve_multigrid(inp), True)
        elif q == 1:
            inp.ftol_array = inp.ftol_array[:0]
            go("multigrid", "ftol", lambda: it.solve_multigrid(inp), True)
        elif q == 2:
            go("setsize", "mpol_ntor", lambda: ind._set_mpol_ntor(*pick(rng, [(-1, 0), (0, -1), (0, 0), (-5, -5), (2**31 - 1, 2**31 - 1), (3, 2**30), (2**30, 3)])))
            go("setsize", "run", lambda: _vmecpp.run(ind, max_threads=1, verbose=_vmecpp.OutputMode.SILENT))
        else:
            go("threads", "cpp", lambda: _vmecpp.run(ind, max_threads=pick(rng, [0, -1, -2**31]), verbose=_vmecpp.OutputMode.SILENT), True)
            go("threads", "py", lambda: vmecpp.run(inp, max_threads=pick(rng, [0, -1, "x", 1.5]), verbose=False), True)
            go("verbose", "py", lambda: vmecpp.run(inp, max_threads=1, verbose=pick(rng, [7, -1, "x", None])), True)
        if rng.random() < 0.2 and not healthy():
            viol.append(dict(key="health", msg="after misuse of the model the reference run gives a different result", detail=dict(case=case, i=i)))
    return dict(viol=viol, states=sorted(states), evaluations=8 * n, counters=cnt)


BAD = {
    # definitely bad whatever the rest of the input is
    "nfp=0": dict(nfp=0), "nfp<0": dict(nfp=-3),
    "mpol=0": dict(mpol=0), "mpol=1": dict(mpol=1), "mpol<0": dict(mpol=-4), "ntor<0": dict(ntor=-1),
    "mpol fractional": dict(mpol=5.5), "ntor fractional": dict(ntor=0.5), "nfp fractional": dict(nfp=1.5), "ntheta fractional": dict(ntheta=0.5),
    "mpol schedule fractional": dict(mpol=[5, 5.5], ns_array=[5, 7], ftol_array=[1e-6] * 2, niter_array=[200] * 2),
    "ns fractional": dict(ns_array=[5.5], ftol_array=[1e-8], niter_array=[100]), "niter fractional": dict(ns_array=[5], ftol_array=[1e-6], niter_array=[200.5]),
    "ncurr fractional": dict(ncurr=0.5), "nstep fractional": dict(nstep=10.5),
    "ntheta<0": dict(ntheta=-1), "nzeta<0": dict(nzeta=-1),
    "ns empty": dict(ns_array=[], ftol_array=[], niter_array=[]), "ns=2": dict(ns_array=[2], ftol_array=[1e-8], niter_array=[100]),
    "ns=0": dict(ns_array=[0], ftol_array=[1e-8], niter_array=[100]), "ns<0": dict(ns_array=[-5], ftol_array=[1e-8], niter_array=[100]),
    "ns decreasing": dict(ns_array=[9, 5], ftol_array=[1e-8] * 2, niter_array=[100] * 2),
    "ftol<0": dict(ns_array=[5], ftol_array=[-1e-8], niter_array=[100]), "ftol=0": dict(ns_array=[5], ftol_array=[0.0], niter_array=[100]),
    "ftol short": dict(ns_array=[5, 7], ftol_array=[1e-8], niter_array=[100] * 2), "niter short": dict(ns_array=[5, 7], ftol_array=[1e-8] * 2, niter_array=[100]),
    "niter=0": dict(ns_array=[5], ftol_array=[1e-8], niter_array=[0]), "niter<0": dict(ns_array=[5], ftol_array=[1e-8], niter_array=[-7]),
    "phiedge=0": dict(phiedge=0.0), "phiedge nan": dict(phiedge=NAN), "phiedge inf": dict(phiedge=INF),
    "ncurr=2": dict(ncurr=2), "ncurr<0": dict(ncurr=-1),
    "pres_scale<0": dict(pres_scale=-1.0), "pres_scale nan": dict(pres_scale=NAN, am=[1.0]), "gamma=1": dict(gamma=1.0),
    "spres_ped=0": dict(spres_ped=0.0), "spres_ped>1": dict(spres_ped=1.5), "spres_ped<0": dict(spres_ped=-0.5),
    "tcon0>1": dict(tcon0=1.5), "tcon0<0": dict(tcon0=-0.1), "tcon0 nan": dict(tcon0=NAN), "delt>10": dict(delt=10.5), "delt inf": dict(delt=INF),
    "gamma nan": dict(gamma=NAN), "bloat nan": dict(ncurr=1, ac=[1.0], pcurr_type="power_series", bloat=NAN), "spres_ped nan": dict(spres_ped=NAN),
    "nvacskip<0": dict(nvacskip=-1), "bloat small with iota": dict(ncurr=0, bloat=0.5, ai=[0.5]),
    "niter later=0": dict(ns_array=[5, 7], ftol_array=[1e-6] * 2, niter_array=[200, 0]),
    "ftol later<0": dict(ns_array=[5, 7], ftol_array=[1e-6, -1.0], niter_array=[200] * 2),
    "ns decreasing a little": dict(ns_array=[9, 8], ftol_array=[1e-6] * 2, niter_array=[200] * 2),
    "ns decreasing at the end": dict(ns_array=[5, 9, 7], ftol_array=[1e-6] * 3, niter_array=[200] * 3),
    "bloat with iota": dict(ncurr=0, bloat=1.5, ai=[0.5]),
    "nstep=0": dict(nstep=0), "nstep<0": dict(nstep=-1), "delt=0": dict(delt=0.0), "delt<0": dict(delt=-0.5), "delt nan": dict(delt=NAN),
    "pmass unknown": dict(pmass_type="no_such_profile"), "piota unknown": dict(ncurr=0, bloat=1.0, piota_type="no_such_profile"),
    "pcurr unknown": dict(ncurr=1, pcurr_type="no_such_profile"), "pmass not for pressure": dict(pmass_type="cubic_spline_ip"),
    "pcurr not for current": dict(ncurr=1, pcurr_type="akima_spline"), "piota not for iota": dict(ncurr=0, bloat=1.0, piota_type="two_power"),
    "pcurr without implementation": dict(ncurr=1, pcurr_type="sum_cossq_s"),
    "spline without knots": dict(pmass_type="cubic_spline", am_aux_s=[], am_aux_f=[]),
    "spline with two knots": dict(pmass_type="akima_spline", am_aux_s=[0.0, 1.0], am_aux_f=[1.0, 0.0]),
    "spline lengths": dict(pmass_type="cubic_spline", am_aux_s=[0.0, 0.3, 0.6, 1.0], am_aux_f=[1.0, 0.5, 0.0]),
    "line without knots": dict(ncurr=0, bloat=1.0, piota_type="line_segment", ai_aux_s=[], ai_aux_f=[]),
    "am nan": dict(am=[NAN], pres_scale=1.0, pmass_type="power_series"), "ai nan": dict(ncurr=0, bloat=1.0, ai=[NAN], piota_type="power_series"),
    "aphi nan": dict(aphi=[NAN]), "curtor nan": dict(ncurr=1, ac=[1.0], pcurr_type="power_series", curtor=NAN),
    "raxis size": dict(raxis_c=[1.0] * 77), "zaxis size": dict(zaxis_s=[0.0] * 77),
    "free without grid": dict(lfreeb=True, mgrid_file="/nonexistent/mgrid.nc", extcur=[1.0]),
    "nvacskip=0": dict(lfreeb=True, nvacskip=0, mgrid_file="/nonexistent/mgrid.nc", extcur=[1.0]),
    "not implemented": dict(free_boundary_method="biest"),
    "free_boundary_method": dict(free_boundary_method="no_such_method"), "iteration_style": dict(iteration_style="no_such_style"),
    "lforbal text": dict(lforbal="yes please"), "lasym list": dict(lasym=[True]), "phiedge text": dict(phiedge="one"), "ns text": dict(ns_array="five"),
    "boundary text": dict(rbc="x"), "boundary nan": "nan", "boundary none": "none", "boundary zero": "zero", "axis outside": "axis", "boundary self-intersecting": "knot",
}


def bad_doc(kind, label):
    """the document with one definitely bad change, or None where it would not be bad"""
    d, coils = doc(kind)
    c = BAD[label]
    if isinstance(c, dict):
        if label == "not implemented" and not kind.startswith("fb"):
            return None
        if label.startswith("free without") or label.startswith("nvacskip"):
            if kind.startswith("fb"):
                return None
        d.update(c)
        return d, None if "lfreeb" in c else coils
    if c == "nan":
        for x in d["rbc"]:
            x["value"] = NAN
    elif c == "none":
        d["rbc"], d["zbs"] = [], []
    elif c == "zero":
        for k in ("rbc", "zbs", "rbs", "zbc"):
            for x in d.get(k) or []:
                x["value"] = 0.0
    elif c == "axis":
        if kind.startswith("fb"):
            return None
        # major radius of the boundary zero: surfaces cross the symmetry axis
        for x in d["rbc"]:
            if x["m"] == 0:
                x["value"] = 0.0
    elif c == "knot":
        if kind in ("cth", "spline", "fb", "fb3"):
            return None
        # a figure-eight cross section has no Jacobian of one sign
        for k in ("rbs", "zbc"):
            d.pop(k, None)
        r0 = next(x["value"] for x in d["rbc"] if x["m"] == 0)
        d["lasym"] = False
        for k in ("raxis_s", "zaxis_c"):
            d.pop(k, None)
        d["mpol"] = max(int(d["mpol"]), 4)
        d["rbc"] = [dict(m=0, n=0, value=r0), dict(m=1, n=0, value=0.3 * r0)]
        d["zbs"] = [dict(m=2, n=0, value=0.3 * r0)]
    return d, coils


def case_bad(kind, labels, tag=None):
    """inputs that cannot have a solution or a meaning: every route must refuse them"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    viol, states, cnt, n = [], set(), {}, 0
    case = dict(fn="case_bad", kind=kind, labels=labels)
    for label in labels:
        q = bad_doc(kind, label)
        if q is None:
            continue
        d, coils = q
        base, _ = doc(kind)
        with scratch() as where:
            (where / "x.json").write_text(json.dumps(d))

            def table():
                return field(coils) if coils else None

            def from_file():
                inp = vmecpp.VmecInput.from_file(where / "x.json")
                return vmecpp.run(inp, magnetic_field=table(), max_threads=2, verbose=False)

            def cpp():
                ind = _vmecpp.VmecINDATA.from_file(where / "x.json")
                kw = dict(magnetic_response_table=table()._to_cpp_magnetic_field_response_table()) if coils else {}
                return _vmecpp.run(ind, max_threads=2, verbose=_vmecpp.OutputMode.SILENT, **kw)

            def attr():
                inp = I.mk(base)
                for k in d:
                    if k in ("rbc", "zbs", "rbs", "zbc") or d[k] == base.get(k):
                        continue
                    setattr(inp, k, np.asarray(d[k], dtype=np.int64 if k in ("ns_array", "niter_array") and not any(isinstance(x, float) for x in d[k]) else float)
                            if isinstance(d[k], list) and not isinstance(BAD[label], str) and k != "lasym" else d[k])
                return vmecpp.run(inp, magnetic_field=table(), max_threads=2, verbose=False)

            routes = [("file", from_file), ("cpp", cpp)]

            def anyway():
                dd = dict(d)
                dd["return_outputs_even_if_not_converged"] = True
                (where / "y.json").write_text(json.dumps(dd))
                inp = vmecpp.VmecInput.from_file(where / "y.json")
                return vmecpp.run(inp, magnetic_field=table(), max_threads=2, verbose=False)

            # the caller's wish for unconverged output does not make a bad input good
            if isinstance(BAD[label], dict) and label not in ("ftol=0",):
                routes.append(("anyway", anyway))
            if isinstance(BAD[label], dict) and not isinstance(BAD[label].get("rbc"), str):
                routes.append(("attr", attr))
            for r, fn in routes:
                n += 1
                outcome(viol, states, cnt, case, label, f"bad:{r}", label, fn, True, limit=120.0)
    if not healthy():
        viol.append(dict(key="health", msg="after the refused inputs the reference run gives a different result", detail=dict(case=case)))
    return dict(viol=viol, states=sorted(states), evaluations=n, counters=cnt)


def handler(ctx, c, r):
    from vplib.core import crash_signature
    if r["kind"] in ("crash", "timeout"):
        import re
        p = re.findall(r"^PROBE (.*)$", r.get("stderr", ""), re.M)
        last = p[-1] if p else ""
        sig = crash_signature(r) if r["kind"] == "crash" else "hang"
        ctx.violation(f"{r['kind']}/{c['fn']}/{sig}", f"{sig} for {last[:400]}", {"case": c, "stderr": r["stderr"][-6000:]})
        return True
    return False


def main(ctx):
    ctx.package("asan")
    ctx.package()
    T = ctx.thorough
    routes = ["file", "bytes", "cppbytes", "cpp", "set", "cppset"]
    per, num = (12, 150) if T else (6, 24)
    cases, big = [], []
    for i in range(num):
        for r in routes:
            cases.append(dict(fn="case_input", seed=ctx.seed * 100000 + i, n=per, route=r, tag=r))
            if i < num // 2:
                big.append(dict(fn="case_input", seed=ctx.seed * 100000 + 50000 + i, n=per, route=r, big=True, tag="big:" + r))
        for r in ("restart", "table", "mgrid", "coils", "model"):
            cases.append(dict(fn="case_" + r, seed=ctx.seed * 100000 + i, n=per, tag=r))
    labels = sorted(BAD)
    for kind in KINDS if T else ["tok", KINDS[1 + ctx.seed % 6], KINDS[1 + (ctx.seed + 3) % 6]]:
        for j in range(4):
            cases.append(dict(fn="case_bad", kind=kind, labels=labels[j::4], tag="bad"))
    if os.environ.get("C04F"):
        cases = [c for c in cases if c["tag"] in os.environ["C04F"].split(",")]
        big = [c for c in big if c["tag"] in os.environ["C04F"].split(",")]
    if getattr(ctx, "only", None):
        cases = [c for c in [ctx.only] if not c.get("big")]
        big = [c for c in [ctx.only] if c.get("big")]
    # a damaged netCDF file must not reach the checker's own cores: every case is a process of its own
    ctx.run_cases(cases, env=ctx.env("asan"), on_timeout="violation", timeout=300, handler=handler, workers=6)
    # requests for more memory than there is: an ordinary build with limited address space
    ctx.run_cases(big, env=ctx.env(), on_timeout="violation", timeout=300, handler=handler, workers=4)
    return ctx.finish("exploration",
                      "no process dies, hangs (300 s; 60 s per call) or has a sanitizer or assertion report; every call ends with an "
                      "ordinary Python exception or a result; a definitely bad input never gives a result and no result is non-finite; "
                      "the reference run afterwards in the same process is bit-identical to the one before",
                      ["mutations that are merely large but legal problems are left out", "command-line programs may end with any non-zero status",
                       "the third-party netCDF, HDF5 and JSON libraries are not instrumented"],
                      min_evaluations=300, min_states=80)
