"""C10: native output archives and low-level readers return exactly what was
stored, or report an error.

archive   complete outputs (real ones, with extreme values, with other shapes)
          saved and loaded; every member of every part compared (members are
          enumerated by the compiler, so a new or forgotten member is seen)
damage    archives with a missing, mistyped, misshapen dataset, truncated
          archives, foreign files: loading must report an error
faults    file-system faults during a save: it must raise, or the file must
          hold everything
netcdf, json, hdf5, files   the readers on generated data of every type, rank
          and size, against what was stored (AddressSanitizer build)
"""
import ctypes
import json
import math
import os
import shutil
import struct
import subprocess
import tempfile

import numpy as np

from vplib import inputs as I
from vplib import work

DAMAGE = ("solovev", "cth")
# datasets that older archives do not have (the loader documents their defaults)
OPTIONAL = {"chipH", "currH", "iteration_style", "return_outputs_even_if_not_converged",
            "mpol_geometry", "ntor_geometry", "currumnc", "currvmnc", "currumns", "currvmns",
            "bdotb", "input_extension", "lrfp", "itfsq", "fsqt", "force_residual_r", "force_residual_z",
            "force_residual_lambda", "delbsq", "restart_reason_timetrace", "wdot", "nextcur"}


def hx(x):
    return struct.pack(">d", float(x)).hex()


def unhx(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def call(exe, reqs, timeout=240):
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["OMP_NUM_THREADS"] = "1"
    r = subprocess.run([exe], input=json.dumps(reqs), capture_output=True, text=True,
                       timeout=timeout, env=env)
    out = []
    for line in r.stdout.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            break
    return out, r.returncode, r.stderr


def crash_key(stderr):
    for line in stderr.splitlines():
        if "runtime error:" in line or "ERROR: AddressSanitizer" in line or "Assertion" in line:
            return line.strip()[:150]
    return (stderr.strip().splitlines() or ["no message"])[-1][:150]


def skippable(f):
    def g(**kw):
        try:
            return f(**kw)
        except work.Skip as e:
            return {"skip": str(e)}
    return g


# ------------------------------------------------------------------- NetCDF
NC_KINDS = ("bool", "char", "int", "double", "string", "a1", "a2", "a3")
INTS = {"i1": (-2**7, 2**7 - 1), "i2": (-2**15, 2**15 - 1), "i4": (-2**31, 2**31 - 1),
        "i8": (-2**63, 2**63 - 1), "u1": (0, 2**8 - 1), "u2": (0, 2**16 - 1), "u4": (0, 2**32 - 1),
        "u8": (0, 2**64 - 1)}


def rand_doubles(rng, n, kind=None):
    out = []
    for _ in range(n):
        c = rng.integers(8)
        if c == 0:
            v = [0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308][rng.integers(8)]
        elif c == 1:
            v = float(rng.integers(-1000, 1000))
        elif c == 2:
            v = float(10.0 ** rng.uniform(-300, 300) * rng.choice([-1, 1]))
        else:
            v = float(rng.normal())
        out.append(v)
    return out


def rand_ints(rng, n, lo, hi, small=False):
    out = []
    for _ in range(n):
        c = rng.integers(4)
        if c == 0:
            out.append(int([lo, hi, 0, 1, max(lo, -1)][rng.integers(5)]))
        elif c == 1 or small:
            out.append(int(max(lo, min(hi, rng.integers(-100, 100)))))
        else:
            out.append(int(lo + int(rng.integers(0, 2**62)) % (hi - lo + 1)))
    return out


def nested(flat, dims):
    if len(dims) == 1:
        return list(flat)
    step = int(np.prod(dims[1:])) if len(dims) > 1 else 1
    return [nested(flat[i * step:(i + 1) * step], dims[1:]) for i in range(dims[0])]


def same_d(a, h):
    """double a vs hexadecimal h, NaN equal to NaN"""
    b = unhx(h)
    return (a != a and b != b) or hx(a) == h


def same_nested(vals, dims, got):
    """expected flat doubles with shape dims vs nested lists of hexadecimal"""
    def rec(g, off, d):
        if len(d) == 1:
            return isinstance(g, list) and len(g) == d[0] and all(same_d(vals[off + i], g[i]) for i in range(d[0]))
        step = int(np.prod(d[1:]))
        return isinstance(g, list) and len(g) == d[0] and all(rec(g[i], off + i * step, d[1:]) for i in range(d[0]))
    return rec(got, 0, list(dims))


def as_double(t, v):
    """(exact?, value)"""
    if t in INTS:
        return abs(v) <= 2**53, float(v)
    if t == "f4":
        return True, float(np.float32(v))
    return True, v


def nc_judge(kind, var, res):
    """var = (type, dims, flat values) or None; '' if the answer is right"""
    err = "error" in res
    if var is None:
        return "" if err else "a variable that does not exist was read"
    t, dims, vals = var
    want_rank = {"bool": 0, "int": 0, "double": 0, "char": 1, "string": 1, "a1": 1, "a2": 2, "a3": 3}[kind]
    if len(dims) != want_rank:
        return "" if err else f"a rank-{len(dims)} variable was read as rank {want_rank}"
    text = t in ("S1", "str")
    if kind in ("char", "string"):
        if not text:
            return "" if err else f"a variable of type {t} was read as text"
        if t == "str":
            return ""
        if kind == "char":
            if dims[0] != 1:
                return "" if err else "several characters were read as one"
            return "" if not err and res["v"] == vals.hex() else f"character {vals!r} came back as {res}"
        w = vals.split(b"\0")[0].strip(b" \t\n\v\f\r")
        return "" if not err and res["v"] == w.hex() else f"text {vals!r} came back as {res}"
    if text:
        return "" if err else "text was read as numbers"
    if kind == "bool":
        if err:
            return "" if t not in INTS or not -2**31 <= vals[0] < 2**31 else "a logical value could not be read"
        return "" if res["v"] == bool(vals[0] != 0) else f"logical value stored as {vals[0]} ({t}) came back {res['v']}"
    if kind == "int":
        if t in INTS:
            inr = -2**31 <= vals[0] < 2**31
            if err:
                return "" if not inr else f"integer {vals[0]} ({t}) could not be read"
            return "" if inr and res["v"] == vals[0] else f"integer {vals[0]} ({t}) came back as {res['v']}"
        return "" if err or res["v"] == vals[0] else f"number {vals[0]} ({t}) was read as integer {res['v']}"
    ex = [as_double(t, v) for v in vals]
    if err:
        # (zero-size and huge-integer variables may be refused)
        return "" if (not vals) or not all(e for e, _ in ex) else f"{t} values of shape {dims} could not be read: {res['error']}"
    if not all(e for e, _ in ex):
        return ""
    v = [x for _, x in ex]
    if kind == "double":
        return "" if same_d(v[0], res["v"]) else f"value {v[0]} ({t}) came back as {unhx(res['v'])}"
    return "" if same_nested(v, dims, res["v"]) else f"values of type {t}, shape {dims} came back differently"


def agrees(r, a, b):
    """r equals a wherever a and b agree"""
    if isinstance(r, dict) and isinstance(a, dict) and isinstance(b, dict):
        return r == a or ("v" in r and "v" in a and "v" in b and agrees(r["v"], a["v"], b["v"]))
    if isinstance(r, list) and isinstance(a, list) and isinstance(b, list):
        return len(r) == len(a) == len(b) and all(agrees(*q) for q in zip(r, a, b))
    return r == a or a != b


def nc_file(path, rng, fmt):
    import netCDF4
    types = ["i1", "i2", "i4", "f4", "f8", "f8", "S1", "S1"]
    if fmt == "NETCDF4":
        types += ["i8", "u1", "u2", "u4", "u8", "str"]
    if fmt == "NETCDF3_64BIT_DATA":
        types += ["i8", "u1", "u2", "u4", "u8"]
    names = {}
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        f.set_auto_maskandscale(False)
        dimn = {}

        def dim(n, unlimited=False):
            k = ("u" if unlimited else "d") + str(n)
            if k not in dimn:
                f.createDimension(k, None if unlimited else n)
                dimn[k] = k
            return k
        for i in range(14):
            t = types[rng.integers(len(types))]
            rank = int(rng.integers(0, 5)) if rng.random() < 0.9 else 5
            dims = [int(rng.choice([1, 1, 2, 3, 4, 7])) for _ in range(rank)]
            if rank and rng.random() < 0.12:       # now and then a large one
                dims[int(rng.integers(rank))] = int(rng.choice([33, 130, 257, 1025, 4099] if rank == 1 else [33, 130]))
            if fmt == "NETCDF4" and rng.random() < 0.1 and rank:
                dims[int(rng.integers(rank))] = 0
            n = int(np.prod(dims)) if rank else 1
            name = f"v{i}" + ("__logical__" if rng.random() < 0.3 else "")
            kw = {}
            if fmt == "NETCDF4" and t != "str" and rank and rng.random() < 0.3 and n:
                kw = dict(zlib=True)
            v = f.createVariable(name, str if t == "str" else t,
                                 tuple(dim(x) if x else dim(0, True) for x in dims), **kw)
            v.set_auto_mask(False)
            if t == "S1":
                raw = bytes(int(c) for c in rng.integers(33, 127, n))
                if n and rng.random() < 0.4:       # text with blanks inside and in front
                    raw = bytes(32 if rng.random() < 0.4 else c for c in raw)
                if n and rank == 1 and rng.random() < 0.6:
                    k = int(rng.integers(0, n + 1))
                    raw = raw[:k] + (b" " if rng.random() < 0.5 else b"\0") * (n - k)
                a = np.frombuffer(raw, "S1").copy()
                if n:
                    v[...] = a.reshape(dims) if rank else a[0]
                names[name] = (t, dims, raw)
            elif t == "str":
                if n and rank:
                    v[...] = np.array([f"text {k}" for k in range(n)], dtype=object).reshape(dims)
                names[name] = (t, dims, [])
            elif t in INTS:
                vals = rand_ints(rng, n, *INTS[t], small=rng.random() < 0.5)
                if n:
                    a = np.array(vals, dtype=t)
                    v[...] = a.reshape(dims) if rank else a[0]
                names[name] = (t, dims, vals)
            else:
                vals = rand_doubles(rng, n)
                if t == "f4":
                    with np.errstate(all="ignore"):
                        vals = [float(np.float32(x)) for x in vals]
                if n:
                    a = np.array(vals, dtype=t)
                    v[...] = a.reshape(dims) if rank else a[0]
                names[name] = (t, dims, vals)
    return names


def case_netcdf(seed, n):
    exe = os.environ["VP_READERS"]
    viol, st, ev, cnt = [], set(), 0, {}
    rng = work.rng_for(seed, "nc")
    d = tempfile.mkdtemp(dir=".")
    for i in range(n):
        fmt = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF4", "NETCDF4"][rng.integers(5)]
        p = os.path.abspath(f"{d}/f{i}.nc")
        names = nc_file(p, rng, fmt)
        reads = [[k, nm[:-11] if k == "bool" and nm.endswith("__logical__") else nm] for nm in names for k in NC_KINDS]
        reads += [[k, "not_there"] for k in NC_KINDS]
        size = os.path.getsize(p)
        cuts = [None] + ([int(rng.integers(0, size)) for _ in range(4)])
        for cut in cuts:
            q = p
            if cut is not None:
                q = p + ".cut"
                with open(p, "rb") as f:
                    open(q, "wb").write(f.read(cut))
            out, rc, err = call(exe, [{"fn": "nc", "path": q, "reads": reads}])
            what = "complete" if cut is None else "truncated"
            if rc or not out:
                viol.append({"key": f"netcdf/crash/{what}", "msg": f"reading a {what} {fmt} file crashed: {crash_key(err)}",
                             "detail": {"stderr": err[-3000:]}})
                continue
            if "error" in out[0]:
                if cut is None:
                    viol.append({"key": "netcdf/open", "msg": f"a valid {fmt} file could not be opened"})
                cnt["refused at opening"] = cnt.get("refused at opening", 0) + 1
                continue
            zero = None
            for (kind, nm), res in zip(reads, out[0]["v"]):
                full = nm + "__logical__" if kind == "bool" else nm
                var = names.get(full)
                if cut is not None and "error" in res:
                    cnt["refused"] = cnt.get("refused", 0) + 1
                    continue
                m = nc_judge(kind, var, res)
                ev += 1
                st.add(f"nc/{fmt}/{kind}/{var[0] if var else 'missing'}/{len(var[1]) if var else '-'}/{what}/{'err' if 'error' in res else 'ok'}")
                if m and cut is not None and fmt != "NETCDF4":
                    # the NetCDF library returns zeros, or what its buffer held before, for what lies beyond the end:
                    # entries that do not depend on the missing part must be right
                    if zero is None:
                        with open(q, "rb") as f:
                            head = f.read()
                        zero = []
                        for fill in (0, 255):
                            open(q + ".fill", "wb").write(head + bytes([fill]) * (size - cut))
                            z, _, _ = call(exe, [{"fn": "nc", "path": q + ".fill", "reads": reads}])
                            zero.append(dict(zip(map(tuple, reads), z[0].get("v", []))) if z else {})
                    if agrees(res, zero[0].get((kind, nm)), zero[1].get((kind, nm))):
                        viol.append({"key": "netcdf/truncated/classic_zero_fill",
                                     "msg": f"a truncated {fmt} file (cut at {cut} of {size} bytes) was read without an error: {m}"})
                        continue
                if m:
                    tt = var[0] if var else "missing"
                    viol.append({"key": f"netcdf/{what}/{kind}/{'text' if tt in ('S1', 'str') else 'int' if tt in INTS else tt}",
                                 "msg": f"{what} {fmt} file, read as {kind}: {m}"
                                        + (f" (cut at {cut} of {size} bytes)" if cut is not None else "")})
    shutil.rmtree(d)
    return {"viol": viol, "evaluations": ev, "states": sorted(st), "counters": cnt}


# --------------------------------------------------------------------- JSON
JS_KINDS = ("bool", "int", "double", "string", "vint", "vdouble")


def rand_json(rng, depth=0):
    """(text, Python value)"""
    c = int(rng.integers(12 if depth < 2 else 9))
    if c == 0:
        t = ["true", "false", "null"][rng.integers(3)]
    elif c <= 2:
        t = str(rand_ints(rng, 1, -2**31, 2**31 - 1, small=rng.random() < 0.5)[0])
    elif c == 3:
        t = str([2**31, -2**31 - 1, 2**32 + 5, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -2**63, -2**63 - 1, 10**30][rng.integers(11)])
    elif c <= 6:
        v = [x for x in rand_doubles(rng, 4) if math.isfinite(x)] or [1.5]
        t = repr(v[0])
        if rng.random() < 0.2:
            t = ["1e3", "-0", "-0.0", "1E-400", "123456789012345678901234567890.5", "0.1e-1", "5e-324"][rng.integers(7)]
    elif c <= 8:
        t = json.dumps("".join(chr(int(x)) for x in rng.integers(1, 0x2FF, int(rng.integers(0, 9)))), ensure_ascii=bool(rng.integers(2)))
    elif c <= 10:
        homog = rng.random() < 0.6
        k = int(rng.integers(0, 6))
        if homog and rng.random() < 0.5:
            t = "[" + ", ".join(str(x) for x in rand_ints(rng, k, -2**31, 2**31 - 1)) + "]"
        elif homog:
            t = "[" + ",".join(repr(x) for x in rand_doubles(rng, k) if math.isfinite(x)) + "]"
        else:
            t = "[" + ",".join(rand_json(rng, depth + 1) for _ in range(k)) + "]"
    else:
        t = "{" + ",".join(f'"k{i}": ' + rand_json(rng, depth + 1) for i in range(int(rng.integers(0, 3)))) + "}"
    return t


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def js_judge(kind, present, v, res):
    if not present:
        return "" if res.get("absent") else f"an absent entry was reported as {res}"
    err = "error" in res
    if res.get("absent"):
        return "an entry that is there was reported as absent"
    if kind == "bool":
        good, same = isinstance(v, bool), lambda: res["v"] is v
    elif kind == "int":
        good, same = is_int(v) and -2**31 <= v < 2**31, lambda: res["v"] == v
    elif kind == "double":
        good, same = is_num(v), lambda: same_d(float(v), res["v"])
    elif kind == "string":
        good, same = isinstance(v, str), lambda: res["v"] == v.encode().hex()
    elif kind == "vint":
        good = isinstance(v, list) and all(is_int(x) and -2**31 <= x < 2**31 for x in v)
        same = lambda: res["v"] == v
    else:
        good = isinstance(v, list) and all(is_num(x) for x in v)
        same = lambda: len(res["v"]) == len(v) and all(same_d(float(x), y) for x, y in zip(v, res["v"]))
    if not good:
        return "" if err else f"a {type(v).__name__} was read as {kind}: {res['v']}"
    if err:
        return f"{v!r} could not be read as {kind}"
    return "" if same() else f"{v!r} came back as {res['v']}"


def case_json(seed, n):
    exe = os.environ["VP_READERS"]
    rng = work.rng_for(seed, "json")
    viol, st, ev = [], set(), 0
    reqs, docs = [], []
    for i in range(n):
        ents = [(f"n{k}", rand_json(rng)) for k in range(int(rng.integers(0, 9)))]
        if rng.random() < 0.1:
            ents.append(("", rand_json(rng)))
        text = "{" + ",\n ".join(f'"{k}": {t}' for k, t in ents) + "}"
        if rng.random() < 0.05:
            text = rand_json(rng)
        doc = json.loads(text)
        names = (sorted(doc) if isinstance(doc, dict) else []) + ["nothing", "n"]
        reqs.append({"fn": "json", "text": text, "reads": [[k, nm] for nm in names for k in JS_KINDS]})
        docs.append(doc)
    out, rc, err = call(exe, reqs)
    if rc or len(out) != len(reqs):
        viol.append({"key": "json/crash", "msg": f"reading a JSON document crashed: {crash_key(err)}",
                     "detail": {"stderr": err[-3000:], "request": reqs[min(len(out), len(reqs) - 1)]}})
    for r, doc, o in zip(reqs, docs, out):
        if "error" in o:
            viol.append({"key": "json/parse", "msg": f"valid JSON refused: {r['text'][:200]}"})
            continue
        for (kind, nm), res in zip(r["reads"], o["v"]):
            present = isinstance(doc, dict) and nm in doc
            v = doc[nm] if present else None
            if not isinstance(doc, dict) and "error" in res:
                continue
            m = js_judge(kind, present, v, res)
            ev += 1
            st.add(f"json/{kind}/{type(v).__name__ if present else 'absent'}/{'err' if 'error' in res else 'ok'}")
            if m:
                viol.append({"key": f"json/{kind}/{type(v).__name__ if present else 'absent'}",
                             "msg": f"JSON reader: {m}", "detail": {"text": r["text"][:1000]}})
    return {"viol": viol, "evaluations": ev, "states": sorted(st)}


# --------------------------------------------------------------------- HDF5
H5_KINDS = ("mat", "exd", "exi", "svd", "svi", "str", "vstr", "d", "i", "b", "tend", "tensi")


def h5_judge(kind, ds, res):
    err = "error" in res
    if ds is None or ds["type"] == "group":
        return "" if err else "something that is no dataset was read"
    t, dims, vals = ds["type"], ds["dims"], ds["vals"]
    if dims == "null":
        return "" if err or (kind in ("exd", "exi", "svd", "svi", "vstr", "tend", "tensi") and res["v"] == []) \
            else "a dataset without any value was read"
    rank = 0 if dims is None else len(dims)
    text = t in ("vstr", "fstr")
    if kind in ("str", "vstr"):
        if not text:
            return "" if err else f"a dataset of type {t} was read as text"
        if rank != (0 if kind == "str" else 1):
            return "" if err else f"a rank-{rank} text dataset was read as {kind}"
        w = [s.encode().hex() for s in vals]
        if err:
            return "" if t == "fstr" or not vals else f"text could not be read: {res['error']}"
        return "" if (res["v"] == (w[0] if kind == "str" else w)) else f"text {vals} came back as {res['v']}"
    if text:
        return "" if err else "text was read as numbers"
    need = {"mat": 2, "exd": 1, "exi": 1, "svd": 1, "svi": 1, "d": 0, "i": 0, "b": 0}.get(kind)
    if need is not None and rank != need:
        return "" if err else f"a rank-{rank} dataset was read as {kind}"
    num = [unhx(v) if t[0] == "f" else v for v in vals]
    if kind in ("exi", "svi", "i", "tensi", "b"):
        ok = all(float(v).is_integer() and -2**31 <= v < 2**31 for v in num)
        plain = ok and t in ("i4", "u1", "hb")
        if kind == "b":
            ok = ok and num[0] in (0, 1)
            plain = ok and t in ("u1", "hb")
        if err:
            return "" if not plain else f"{t} values could not be read as {kind}: {res['error']}"
        if kind == "b" and not ok:
            return "" if t[0] != "f" and res["v"] == 1 else f"value {num[0]} ({t}) was read as logical {res['v']}"
        got = res["v"] if isinstance(res["v"], list) else [res["v"]]
        if got != [int(v) if float(v).is_integer() else v for v in num]:
            return f"{t} values {num[:4]} came back as {got[:4]} ({kind})"
    else:
        exact = all(abs(v) <= 2**53 for v in num) if t[0] != "f" else True
        if err:
            return "" if not exact else f"{t} values of shape {dims} could not be read as {kind}: {res['error']}"
        got = res["v"] if isinstance(res["v"], list) else [res["v"]]
        if exact and not (len(got) == len(num) and all(same_d(float(a), b) for a, b in zip(num, got))):
            return f"{t} values of shape {dims} came back differently ({kind})"
    if kind in ("mat", "tend", "tensi") and res.get("dims") != (dims or []):
        return f"shape {dims} came back as {res.get('dims')}"
    return ""


def case_hdf5(seed, n):
    exe = os.environ["VP_READERS"]
    rng = work.rng_for(seed, "h5")
    viol, st, ev, cnt = [], set(), 0, {}
    d = tempfile.mkdtemp(dir=".")
    for i in range(n):
        p = os.path.abspath(f"{d}/f{i}.h5")
        # (a) files of the HDF5 library itself
        sets = [{"name": "grp", "type": "group", "dims": None, "vals": []}]
        for k in range(12):
            t = ["f8", "f8", "f4", "i4", "i4", "i8", "u4", "u1", "hb", "vstr", "fstr"][rng.integers(11)]
            c = rng.random()
            if c < 0.3:
                dims = None
            elif c < 0.34:
                dims = "null"
            else:
                dims = [int(rng.choice([0, 1, 2, 3, 5])) for _ in range(int(rng.integers(1, 5)))]
            cntv = 0 if dims == "null" else 1 if dims is None else int(np.prod(dims))
            if t in ("vstr", "fstr"):
                vals = [["", "t", " a  b ", "line\nline"][int(rng.integers(4))] + "x" * int(rng.choice([0, 0, 3, 9, 70, 300])) + (str(j) if rng.random() < 0.7 else "")
                        for j in range(cntv)]
                if t == "fstr":
                    vals = ["t" + v.strip() for v in vals]
            elif t[0] == "f":
                v = rand_doubles(rng, cntv)
                if t == "f4":
                    with np.errstate(all="ignore"):
                        v = [float(np.float32(x)) for x in v]
                vals = [hx(x) for x in v]
            else:
                lo, hi = {"i4": INTS["i4"], "i8": INTS["i8"], "u4": INTS["u4"], "u1": INTS["u1"], "hb": (0, 1)}[t]
                vals = rand_ints(rng, cntv, lo, hi, small=rng.random() < 0.5)
            sets.append({"name": f"s{k}", "type": t, "dims": dims, "vals": vals})
        by = {s["name"]: s for s in sets}
        reads = [[k, s] for s in list(by) + ["missing", "grp/missing"] for k in H5_KINDS]
        out, rc, err = call(exe, [{"fn": "h5make", "path": p, "sets": sets}])
        # one process per reading kind: a crash of one does not hide another
        for kind in H5_KINDS:
            rr = [r for r in reads if r[0] == kind]
            out, rc, err = call(exe, [{"fn": "h5read", "path": p, "reads": rr}])
            if rc or not out:
                viol.append({"key": f"hdf5/crash/{kind}", "msg": f"reading datasets as {kind} crashed: {crash_key(err)}",
                             "detail": {"stderr": err[-3000:], "sets": sets}})
                continue
            for (kd, nm), res in zip(rr, out[0].get("v", [])):
                s = by.get(nm)
                m = h5_judge(kd, s, res)
                ev += 1
                st.add(f"h5/{kd}/{s['type'] if s else 'missing'}/{'null' if s and s['dims'] == 'null' else len(s['dims'] or []) if s else '-'}/{'err' if 'error' in res else 'ok'}")
                if m:
                    viol.append({"key": f"hdf5/{kd}/{s['type'] if s else 'missing'}/{'null' if s and s['dims'] == 'null' else len(s['dims'] or []) if s else '-'}",
                                 "msg": f"HDF5 reader: {m}", "detail": {"set": s}})
        # (b) the code's own writers and readers
        sets = []
        for k, kind in enumerate(H5_KINDS):
            dims = [int(rng.choice([0, 1, 2, 4, 6])) for _ in range(int(rng.integers(1, 4)))]
            if rng.random() < 0.1:
                dims = [int(rng.choice([33, 257, 5003]))]
            if kind == "mat":
                dims = [int(rng.choice([0, 1, 3, 8])), int(rng.choice([0, 1, 2, 9]))]
            cntv = int(np.prod(dims))
            if kind in ("mat", "tend", "exd", "svd"):
                vals = [hx(x) for x in rand_doubles(rng, cntv)]
            elif kind in ("exi", "svi", "tensi"):
                vals = rand_ints(rng, cntv, -2**31, 2**31 - 1)
            elif kind == "str":
                vals = bytes(int(x) for x in rng.integers(1, 256, int(rng.choice([0, 1, 7, 49, 300, 5000])))).hex()
            elif kind == "vstr":
                vals = [bytes(int(x) for x in rng.integers(1, 256, int(rng.choice([0, 0, 1, 9, 39, 400])))).hex() for _ in range(int(rng.integers(0, 6)))]
            elif kind == "d":
                vals = hx(rand_doubles(rng, 1)[0])
            elif kind == "i":
                vals = rand_ints(rng, 1, -2**31, 2**31 - 1)[0]
            else:
                vals = bool(rng.integers(2))
            sets.append({"kind": kind, "name": f"g{k}" if rng.random() < 0.5 else f"name with space {k}", "dims": dims, "vals": vals})
        for grp in ([s for s in sets if s["kind"] != "vstr"], [s for s in sets if s["kind"] == "vstr"]):
            out, rc, err = call(exe, [{"fn": "h5write", "path": p, "sets": grp},
                                      {"fn": "h5read", "path": p, "reads": [[s["kind"], s["name"]] for s in grp]}])
            if rc or len(out) != 2:
                viol.append({"key": f"hdf5/roundtrip_crash/{'vstr' if len(grp) == 1 else 'other'}",
                             "msg": f"writing and reading datasets crashed: {crash_key(err)}",
                             "detail": {"stderr": err[-3000:], "sets": grp}})
                continue
            if "error" in out[0] or "error" in out[1]:
                viol.append({"key": "hdf5/roundtrip_error", "msg": f"writing and reading failed: {out[0]} {str(out[1])[:200]}"})
                continue
            for s, res in zip(grp, out[1]["v"]):
                ev += 1
                st.add(f"h5rt/{s['kind']}/{'empty' if not s['vals'] and s['kind'] not in 'dib' else 'full'}")
                w = s["vals"]
                g = res.get("v")
                if s["kind"] == "b":
                    w = int(w)
                ok = g == w
                if not ok and g is not None and s["kind"] in ("mat", "tend", "exd", "svd", "d"):
                    ww, gg = (w, g) if isinstance(w, list) else ([w], [g])
                    ok = len(ww) == len(gg) and all(same_d(unhx(a), b) for a, b in zip(ww, gg))
                if ok and s["kind"] in ("mat", "tend", "tensi"):
                    ok = res.get("dims") == s["dims"]
                if not ok:
                    viol.append({"key": f"hdf5/roundtrip/{s['kind']}",
                                 "msg": f"{s['kind']} of shape {s['dims']} written and read back differently: {str(w)[:80]} -> {str(res)[:120]}"})
    shutil.rmtree(d)
    return {"viol": viol, "evaluations": ev, "states": sorted(st), "counters": cnt}


# -------------------------------------------------------------------- files
def case_files(seed):
    exe = os.environ["VP_READERS"]
    rng = work.rng_for(seed, "files")
    d = os.path.abspath(tempfile.mkdtemp(dir="."))
    viol, st, ev = [], [], 0
    reqs, want = [], []
    for i in range(20):
        n = int(rng.choice([0, 1, 7, 511, 512, 4096, 70000]))
        data = rng.integers(0, 256, n, dtype=np.uint8).tobytes()
        if i % 5 == 4:
            data = b"line\r\n\x00\x1a\xff" * (n // 9)
        p = f"{d}/f{i}"
        reqs += [{"fn": "file", "op": "write", "path": p, "vals": data.hex()}, {"fn": "file", "op": "read", "path": p}]
        want += [("write", p, data), ("read", p, data)]
    os.makedirs(f"{d}/sub")
    for op, p in (("read", f"{d}/none"), ("read", f"{d}/sub"), ("read", f"{d}/f0/x"), ("read", ""),
                  ("write", f"{d}/none/x"), ("write", f"{d}/sub"), ("write", "/dev/full")):
        reqs.append({"fn": "file", "op": op, "path": p, "vals": "00" * 9000})
        want.append((op, p, None))
    out, rc, err = call(exe, reqs)
    if rc or len(out) != len(reqs):
        viol.append({"key": "files/crash", "msg": f"reading or writing a file crashed: {crash_key(err)}", "detail": {"stderr": err[-3000:]}})
    for (op, p, data), res in zip(want, out):
        ev += 1
        rel = p.replace(d, "")
        st.append(f"file/{op}/{'bad' if data is None else len(data)}/{'err' if 'error' in res else 'ok'}")
        if data is None:
            if "error" not in res:
                viol.append({"key": f"files/{op}/{rel or 'empty'}", "msg": f"{op} of '{rel}' reported success: {str(res)[:80]}"})
        elif "error" in res:
            viol.append({"key": f"files/{op}_failed", "msg": f"{op} of {len(data)} bytes failed: {res['error']}"})
        elif op == "read" and res["v"] != data.hex():
            viol.append({"key": "files/read_differs", "msg": f"{len(data)} bytes read back differently"})
        elif op == "write" and open(p, "rb").read() != data:
            viol.append({"key": "files/write_differs", "msg": f"{len(data)} bytes were written differently"})
    shutil.rmtree(d)
    return {"viol": viol, "evaluations": ev, "states": sorted(set(st))}


# ------------------------------------------------------------------ archives
def small_input(spec):
    d = work.spec_to_input(spec)[0]
    d = {k: v for k, v in d.items() if k != "_coils"}
    return d


@skippable
def case_archive(spec, nvar, seed):
    exe = os.environ["VP_ARCHIVE"]
    if spec.get("square"):
        # as many surfaces as there are modes
        d = small_input({"canon": spec["canon"]})
        I.single(d, 5, 1e-8, 300)
        d["return_outputs_even_if_not_converged"] = True
        w = work.solve(d).wout
        I.single(d, max(3, int(getattr(w, spec["square"]))), 1e-10, 1500)
    else:
        d = small_input(spec)
    vi = I.mk(d)
    path = os.path.abspath("a.h5")
    variants = [["real", 0]] + [[k, seed * 100 + j] for j in range(nvar) for k in ("values", "shapes", "square")]
    txt = vi.model_dump_json() if not hasattr(vi, "to_json") else vi.to_json()
    out, rc, err = call(exe, [{"fn": "run", "path": path, "indata": txt, "variants": variants}], timeout=280)
    viol, st, ev = [], [], 0
    if rc or not out:
        return {"viol": [{"key": "archive/crash", "msg": f"saving and loading an output crashed: {crash_key(err)}", "detail": {"stderr": err[-3000:]}}],
                "evaluations": 1}
    if "skip" in out[0]:
        raise work.Skip(out[0]["skip"].splitlines()[0][:80] if out[0]["skip"] else "run failed")
    for (kind, sd), o in zip(variants, out[0]["v"]):
        if "diffs" not in o:
            viol.append({"key": f"archive/{kind}/failed", "msg": f"saving and loading a complete output ({kind}) failed: {str(o)[:200]}"})
            continue
        ev += o["compared"]
        st.append(f"archive/{kind}/{work.describe(d)}")
        for w, m in o["diffs"][:6]:
            viol.append({"key": f"archive/{kind}/{w}".replace("vmecpp::", ""), "msg": f"after saving and loading ({kind}), {w}: {m}"})
    if os.path.exists(path):
        os.unlink(path)
    return {"viol": viol, "evaluations": ev, "states": st}


def members(o, prefix="", depth=0, out=None):
    """all readable data attributes of a bound C++ object"""
    out = {} if out is None else out
    for k in sorted(dir(o)):
        if k.startswith("_"):
            continue
        try:
            v = getattr(o, k)
        except Exception as e:  # noqa: BLE001
            out[prefix + k] = f"<{type(e).__name__}>"
            continue
        if callable(v):
            continue
        if isinstance(v, (np.ndarray, int, float, str, bool, list, type(None))):
            out[prefix + k] = v
        elif hasattr(v, "value") and hasattr(v, "name") and not hasattr(v, "ns"):
            out[prefix + k] = int(v.value)
        elif depth < 2:
            members(v, f"{prefix}{k}.", depth + 1, out)
    return out


def same_any(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, float):
        return isinstance(b, float) and hx(a) == hx(b)
    return type(a) is type(b) and a == b


def native_run(d, threads=1):
    from vmecpp.cpp import _vmecpp
    d = dict(d)
    coils = d.pop("_coils", None)
    vi = I.mk(d)
    cpp = vi._to_cpp_vmecindata()
    kw = dict(max_threads=threads, verbose=_vmecpp.OutputMode.SILENT)
    if coils:
        from vplib import freeb
        import vmecpp
        t = freeb.table(coils[0], **coils[1])
        t = t._to_cpp_magnetic_field_response_table() if hasattr(t, "_to_cpp_magnetic_field_response_table") else \
            (t._to_cpp() if hasattr(t, "_to_cpp") else t)
        return _vmecpp.run(cpp, t, **kw)
    return _vmecpp.run(cpp, **kw)


@skippable
def case_pyarchive(spec):
    from vmecpp.cpp import _vmecpp
    d = work.spec_to_input(spec)[0]
    try:
        oq = native_run(d)
    except RuntimeError as e:
        raise work.Skip(str(e).strip().splitlines()[0][:80])
    viol, ev = [], 0
    p = os.path.abspath("p.h5")
    open(p, "wb").write(b"x" * 100000)       # an existing file is replaced
    from pathlib import Path
    labels = [[], ["coil 1", "", "a rather long label of a coil current circuit"]][len(str(spec)) % 2]
    oq.wout.curlabel = labels
    a = members(oq)
    oq.save(Path(p))
    b = members(_vmecpp.OutputQuantities.load(Path(p)))
    for k in sorted(set(a) | set(b)):
        ev += 1
        if k not in a or k not in b or not same_any(a[k], b[k]):
            viol.append({"key": f"pyarchive/{k}", "msg": f"{k} is not restored from the archive: {str(a.get(k))[:60]} -> {str(b.get(k))[:60]}"})
    # a saved archive is the same one after another round
    _vmecpp.OutputQuantities.load(Path(p)).save(Path(p))
    c = members(_vmecpp.OutputQuantities.load(Path(p)))
    for k in a:
        ev += 1
        if not same_any(a[k], c.get(k)):
            viol.append({"key": f"pyarchive2/{k}", "msg": f"{k} is not restored after two rounds through an archive"})
            break
    os.unlink(p)
    return {"viol": viol, "evaluations": ev, "states": [f"py/{work.describe(d)}/{len(labels)}"], "counters": {"members": len(a)}}


@skippable
def case_damage(spec, how, every=1, offset=0):
    exe = os.environ["VP_ARCHIVE"]
    d = small_input(spec)
    path = os.path.abspath("d.h5")
    vi = I.mk(d)
    out, rc, err = call(exe, [{"fn": "run", "path": path, "indata": vi.to_json() if hasattr(vi, "to_json") else vi.model_dump_json(), "variants": []},
                              {"fn": "damage", "path": path, "how": how, "every": every, "offset": offset}], timeout=280)
    viol, ev, cnt = [], 0, {}
    if rc or len(out) != 2:
        return {"viol": [{"key": f"damage/{how}/crash", "msg": f"loading an archive with one damaged ({how}) dataset crashed: {crash_key(err)}",
                          "detail": {"stderr": err[-3000:]}}], "evaluations": 1}
    for o in out[1]["v"]:
        ev += 1
        leaf = o["name"].split("/")[-1]
        if o.get("loaded"):
            if how == "delete" and leaf in OPTIONAL:
                cnt["optional"] = cnt.get("optional", 0) + 1
                continue
            viol.append({"key": f"damage/{how}/{o['name']}", "msg": f"an archive whose dataset {o['name']} is "
                         f"{dict(delete='missing', rank='of another rank', type='of another type')[how]} was loaded without an error"})
        else:
            cnt[f"{how} refused"] = cnt.get(f"{how} refused", 0) + 1
    if os.path.exists(path):
        os.unlink(path)
    return {"viol": viol, "evaluations": ev, "states": [f"damage/{how}/{o['name']}" for o in out[1]["v"]], "counters": cnt}


@skippable
def case_truncate(spec, seed, n):
    from pathlib import Path
    from vmecpp.cpp import _vmecpp
    rng = work.rng_for(seed, "trunc")
    d = work.spec_to_input(spec)[0]
    oq = native_run(d)
    p = os.path.abspath("t.h5")
    oq.save(Path(p))
    ref = members(_vmecpp.OutputQuantities.load(Path(p)))
    data = open(p, "rb").read()
    viol, st, ev = [], set(), 0
    cuts = sorted({0, 1, 8, 96, len(data) // 2, len(data) - 1, len(data) - 8, len(data) - 512} | {int(x) for x in rng.integers(0, len(data), n)})
    for c in cuts:
        open(p, "wb").write(data[:c])
        ev += 1
        try:
            got = members(_vmecpp.OutputQuantities.load(Path(p)))
        except Exception as e:  # noqa: BLE001
            st.add(f"trunc/{type(e).__name__}/{c * 20 // len(data)}")
            continue
        bad = [k for k in ref if not same_any(ref[k], got.get(k))]
        if bad:
            viol.append({"key": "truncate/loaded", "msg": f"an archive cut at {c} of {len(data)} bytes was loaded; {len(bad)} members differ, e.g. {bad[0]}"})
    # other things that are no archives
    os.unlink(p)
    others = {"missing": None, "empty": b"", "text": b"hello\n" * 1000, "zeros": bytes(5000), "cdf": b"CDF\x01" + bytes(500)}
    for k, v in others.items():
        if v is not None:
            open(p, "wb").write(v)
        ev += 1
        try:
            _vmecpp.OutputQuantities.load(Path(p))
            viol.append({"key": f"truncate/{k}", "msg": f"a {k} file was loaded as an archive"})
        except Exception as e:  # noqa: BLE001
            st.add(f"other/{k}/{type(e).__name__}")
    for q in (os.path.abspath("nodir/x.h5"), os.path.abspath(".")):
        ev += 1
        try:
            oq.save(Path(q))
            viol.append({"key": "truncate/save_bad_path", "msg": f"saving to {os.path.basename(os.path.dirname(q))}/... reported success"})
        except Exception as e:  # noqa: BLE001
            st.add(f"save/{type(e).__name__}")
    # the process is still usable
    oq.save(Path(p))
    if any(not same_any(ref[k], v) for k, v in members(_vmecpp.OutputQuantities.load(Path(p))).items()):
        viol.append({"key": "truncate/after", "msg": "saving and loading after refused archives gives different data"})
    os.unlink(p)
    return {"viol": viol, "evaluations": ev, "states": sorted(st)}


MODES = {"eio": 1, "enospc": 2, "short": 5, "eintr": 6}


@skippable
def case_faults(spec, mode):
    """a fault at each file-system call of a save: error or complete file"""
    from pathlib import Path
    from vmecpp.cpp import _vmecpp
    lib = ctypes.CDLL(os.environ["VP_FAULTFS"])
    oq = native_run(work.spec_to_input(spec)[0])
    d = os.path.abspath("fa")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    p = f"{d}/x.h5"
    viol, st, ev, cnt = [], set(), 0, {}
    oq.save(Path(p))
    ref = members(_vmecpp.OutputQuantities.load(Path(p)))

    def attempt(k):
        if os.path.exists(p):
            os.unlink(p)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                lib.vpf_arm(d.encode(), p.encode(), k, MODES[mode] if k else 0, dn)
                res = "ok"
                try:
                    oq.save(Path(p))
                except BaseException as e:  # noqa: BLE001
                    res = "raised " + type(e).__name__
                n = lib.vpf_disarm()
                os.write(w, f"{res};{n}".encode())
            finally:
                os._exit(0)
        os.close(w)
        s = b""
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            s += b
        os.close(r)
        os.waitpid(pid, 0)
        a, _, b = s.decode().partition(";")
        return a or "died", int(b or 0)
    _, total = attempt(0)
    ks = list(range(1, total + 1))
    if len(ks) > 60:
        ks = ks[:25] + ks[25:-25:max(1, (len(ks) - 50) // 10)] + ks[-25:]
    for k in ks:
        res, n = attempt(k)
        ev += 1
        cnt[f"{mode}: {res}"] = cnt.get(f"{mode}: {res}", 0) + 1
        st.add(f"fault/{mode}/{res}")
        complete = False
        try:
            got = members(_vmecpp.OutputQuantities.load(Path(p)))
            complete = all(same_any(ref[x], got.get(x)) for x in ref)
        except Exception:  # noqa: BLE001
            complete = False
        if res == "died":
            viol.append({"key": f"faults/{mode}/died", "msg": f"a save with fault {mode} at file-system call {k} of {total} ended the process"})
        elif res == "ok" and not complete:
            viol.append({"key": f"faults/{mode}/silent", "msg": f"a save with fault {mode} at file-system call {k} of {total} reported success, but the archive does not hold the output"})
    cnt["calls"] = total
    shutil.rmtree(d)
    return {"viol": viol, "evaluations": ev, "states": sorted(st), "counters": cnt}


def main(ctx):
    import subprocess as sp
    from vplib import core
    env_extra = {}
    try:
        outs = ctx.package(targets=("pymod", "h:archive"))
        env_extra["VP_ARCHIVE"] = outs[1]
    except Exception as e:     # the C++ interface changed: API level only
        ctx.package()
        ctx.count("archive_harness_unavailable")
        print("note: archive harness does not build:", str(e)[:200])
    try:
        env_extra["VP_READERS"] = ctx.build("asan", ["u:readers"])[0]
    except Exception as e:
        ctx.count("reader_harness_unavailable")
        print("note: reader harness does not build:", str(e)[:200])
    so = f"{ctx.scratch}/faultfs.so"
    sp.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, f"{core.VERIF}/shim/faultfs/faultfs.c", "-ldl"], check=True)
    k = 10 if ctx.thorough else 1
    cases, fc = [], []
    sp_all = work.specs(ctx, 8 * k)
    if "VP_ARCHIVE" in env_extra:
        cases += [{"fn": "case_archive", "tag": f"archive/{i}", "spec": s, "nvar": 2, "seed": ctx.seed * 100 + i} for i, s in enumerate(sp_all)
                  if s.get("canon") not in work.FREE]
        cases += [{"fn": "case_archive", "tag": f"archive/square/{c}/{j}", "spec": {"square": j, "canon": c}, "nvar": 1, "seed": ctx.seed}
                  for j in ("mnmax", "mnmax_nyq") for c in ("solovev", "up_down_asym", "cth")]
        cases += [{"fn": "case_damage", "tag": f"damage/{how}/{c}/{j}", "spec": {"canon": c}, "how": how, "every": 4, "offset": j}
                  for how in ("delete", "rank", "type") for j in range(4) for c in DAMAGE[: 2 if ctx.thorough else 1]]
    cases += [{"fn": "case_pyarchive", "tag": f"py/{i}", "spec": s} for i, s in enumerate(work.specs(ctx, 4 * k, canon=list(work.CANONICAL) + list(work.FREE)))]
    cases += [{"fn": "case_truncate", "tag": f"trunc/{i}", "spec": {"canon": DAMAGE[i % 2]}, "seed": ctx.seed * 50 + i, "n": 60} for i in range(2 * k)]
    if "VP_READERS" in env_extra:
        cases += [{"fn": "case_netcdf", "tag": f"nc/{i}", "seed": ctx.seed * 1000 + i, "n": 8} for i in range(16 * k)]
        cases += [{"fn": "case_json", "tag": f"json/{i}", "seed": ctx.seed * 1000 + i, "n": 250} for i in range(8 * k)]
        cases += [{"fn": "case_hdf5", "tag": f"h5/{i}", "seed": ctx.seed * 1000 + i, "n": 6} for i in range(12 * k)]
        cases += [{"fn": "case_files", "tag": f"files/{i}", "seed": ctx.seed * 1000 + i} for i in range(2 * k)]
    fc += [{"fn": "case_faults", "tag": f"fault/{m}", "spec": {"canon": DAMAGE[0]}, "mode": m} for m in MODES]
    if getattr(ctx, "only", None):
        fc = [ctx.only] if ctx.only["fn"] == "case_faults" else []
        cases = [] if fc else [ctx.only]
    if cases:
        ctx.run_cases(cases, env=ctx.env(**env_extra), on_timeout="inconclusive", timeout=300)
    if fc:
        ctx.run_cases(fc, env=ctx.env(LD_PRELOAD=so, VP_FAULTFS=so, **env_extra), on_timeout="inconclusive", timeout=300)
    return ctx.finish("exploration",
                      "every stored value comes back bit for bit, or an error is reported; no crash, no sanitizer report",
                      ["file contents altered without changing their structure (no checksums) are not judged",
                       "datasets that older archives lack may be absent (documented defaults)",
                       "file-system faults are injected at the C library boundary"],
                      min_evaluations=20000, min_states=100)


