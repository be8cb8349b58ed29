"""C08: inputs survive every conversion and file format unchanged.

Round trips of generated VmecInput objects through every representation the
package offers, compared bit for bit by an independent deep comparison; the
namelist export is read back by a small parser of its own."""
import copy
import json
import os
import pathlib
import re

import numpy as np

from vplib import inputs as I
from vplib import work

PATHS = ["NONE", "mgrid_file.nc", "/some where/with space/mgrid.nc", "ünïcode/mgrid.nc", "a,b=c/mgrid.nc",
         "it's/mgrid.nc", 'quo"te', "x" * 200, "!bang&amp/", "none", "", "back\\slash"]
NML_FIELDS = ["lasym", "nfp", "mpol", "ntor", "ntheta", "nzeta", "ns_array", "ftol_array", "niter_array", "delt",
              "tcon0", "aphi", "lforbal", "nstep", "phiedge", "pmass_type", "am", "am_aux_s", "am_aux_f",
              "pres_scale", "gamma", "spres_ped", "ncurr", "piota_type", "ai", "ai_aux_s", "ai_aux_f",
              "pcurr_type", "ac", "ac_aux_s", "ac_aux_f", "curtor", "bloat", "lfreeb", "mgrid_file", "extcur",
              "nvacskip", "raxis_c", "zaxis_s", "raxis_s", "zaxis_c", "rbc", "zbs", "rbs", "zbc"]
NML_NAME = {"raxis_c": "raxis_cc", "zaxis_s": "zaxis_cs", "raxis_s": "raxis_cs", "zaxis_c": "zaxis_cc"}


# ---------------------------------------------------------------- generators

def flt(rng, lo=None, hi=None, nz=False):
    while True:
        k = rng.integers(9)
        if lo is not None:
            x = float(rng.uniform(lo, hi))
            if k == 0:
                x = hi
            return x
        if k == 0:
            x = 0.0
        elif k == 1:
            x = float(rng.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
                                  1e22, 1e23, 0.1, 1 / 3, 2 / 3, 1e-7, 123456789.123456789, -0.3]))
        elif k == 2:
            x = float(rng.integers(-1000, 1000))
        elif k == 3:
            x = float(2.0 ** rng.integers(-60, 60)) * (1 + 2.0 ** -52)
        elif k == 4:
            x = float(rng.standard_normal() * 10.0 ** rng.integers(-300, 300))
        else:
            x = float(rng.standard_normal())
        if nz and x == 0.0:
            continue
        return x


def arr(rng, n, **kw):
    return [flt(rng, **kw) for _ in range(n)]


USABLE = {
    "pmass_type": ["power_series", "gauss_trunc", "two_lorentz", "two_power", "two_power_gs", "akima_spline", "cubic_spline", "pedestal",
                   "rational", "line_segment"],
    "piota_type": ["power_series", "sum_atan", "akima_spline", "cubic_spline", "rational", "line_segment", "nice_quadratic"],
    "pcurr_type": ["power_series", "power_series_i", "gauss_trunc", "sum_atan", "two_power", "two_power_gs", "akima_spline_i",
                   "akima_spline_ip", "cubic_spline_i", "cubic_spline_ip", "pedestal", "rational", "line_segment_i", "line_segment_ip"]}


def gen(rng):
    """random consistent keyword dict for VmecInput (dense arrays)"""
    d = {}
    d["lasym"] = bool(rng.integers(2))
    d["nfp"] = int(rng.choice([1, 2, 5, 19, 100]))
    d["mpol"] = int(rng.choice([2, 3, 4, 6, 7, 12, 31]))
    d["ntor"] = int(rng.choice([0, 0, 1, 2, 3, 5, 13]))
    d["mpol_geometry"] = int(rng.choice([-1, 1, 2, 5]))
    d["ntor_geometry"] = int(rng.choice([-1, 0, 1, 5]))
    d["ntheta"] = int(rng.choice([0, 18, 33, 200]))
    d["nzeta"] = int(rng.choice([0, 1, 36, 37]))
    k = int(rng.choice([1, 2, 3, 7]))
    d["ns_array"] = np.sort(rng.integers(3, 300, k)).astype(np.int64)
    d["ftol_array"] = np.array([10.0 ** rng.uniform(-20, -3) for _ in range(k)])
    d["niter_array"] = rng.integers(1, 2**31 - 1, k).astype(np.int64)
    d["phiedge"] = flt(rng, nz=True)
    d["ncurr"] = int(rng.integers(2))
    for p, t in (("am", "pmass_type"), ("ai", "piota_type"), ("ac", "pcurr_type")):
        d[t] = str(rng.choice(USABLE[t]))
        d[p] = np.array(arr(rng, int(rng.choice([0, 1, 2, 5, 21, 30]))), dtype=float)
        ka = int(rng.choice([4, 5, 101] if "spline" in d[t] or "segment" in d[t] else [0, 0, 1, 4, 101]))
        d[p + "_aux_s"] = np.array(arr(rng, ka), dtype=float)
        d[p + "_aux_f"] = np.array(arr(rng, ka), dtype=float)
    d["pres_scale"] = abs(flt(rng))
    d["gamma"] = float(rng.choice([0.0, 5 / 3, -1.25, 2.0]))
    d["spres_ped"] = flt(rng, 1e-6, 1.0)
    d["curtor"] = flt(rng)
    d["bloat"] = flt(rng, 0.5, 2.0) if d["ncurr"] else 1.0
    d["lfreeb"] = bool(rng.integers(2))
    d["mgrid_file"] = str(rng.choice(PATHS))
    d["extcur"] = np.array(arr(rng, int(rng.choice([0, 1, 3, 40]))), dtype=float)
    d["nvacskip"] = int(rng.choice([1, 2, 6, 9999]))
    d["free_boundary_method"] = str(rng.choice(["nestor", "only_coils"] if d["lfreeb"]
                                               else ["nestor", "only_coils", "biest"]))
    d["iteration_style"] = str(rng.choice(["vmec_8_52", "parvmec"]))
    d["nstep"] = int(rng.choice([1, 10, 2**31 - 1]))
    d["aphi"] = np.array(arr(rng, int(rng.choice([1, 2, 20]))), dtype=float)
    d["delt"] = flt(rng, 1e-9, 10.0)
    d["tcon0"] = flt(rng, 0.0, 1.0)
    d["lforbal"] = bool(rng.integers(2))
    d["return_outputs_even_if_not_converged"] = bool(rng.integers(2))
    sh = (d["mpol"], 2 * d["ntor"] + 1)
    names2 = ["rbc", "zbs"] + (["rbs", "zbc"] if d["lasym"] else [])
    names1 = ["raxis_c", "zaxis_s"] + (["raxis_s", "zaxis_c"] if d["lasym"] else [])
    dens = float(rng.choice([0.0, 0.3, 1.0]))
    for n in names2:
        a = np.array([flt(rng, nz=True) for _ in range(sh[0] * sh[1])]).reshape(sh)
        d[n] = np.where(rng.random(sh) < dens, a, 0.0)
    for n in names1:
        d[n] = np.array(arr(rng, d["ntor"] + 1), dtype=float)
    return d


# ---------------------------------------------------------------- comparison

def same(a, b):
    """exact equality of values and shapes (bitwise for floats, -0.0 == 0.0 for
    coefficients which are stored sparsely)"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if (a.dtype.kind in "iu") != (b.dtype.kind in "iu") and a.size:
            return False
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) or isinstance(b, float):
        return float(a) == float(b) or (a != a and b != b)
    return a == b


def plain(v):
    if hasattr(v, "value") and not isinstance(v, np.ndarray):
        v = v.value if isinstance(v.value, str) else v.name.lower()
    if hasattr(v, "name") and not isinstance(v, (str, np.ndarray)):
        v = v.name.lower()
    return v


def diffs(a, b, fields):
    out = []
    for f in fields:
        x, y = plain(getattr(a, f)), plain(getattr(b, f))
        if not same(x, y):
            out.append((f, repr(x)[:150], repr(y)[:150]))
    return out


def snap(v, fields):
    return {f: copy.deepcopy(getattr(v, f)) for f in fields}


class Obj:
    def __init__(self, d):
        self.__dict__.update(d)


# ---------------------------------------------------------------- namelist

def parse_namelist(text):
    """independent reader of a Fortran namelist group: name -> list of values;
    indexed assignments name(i,j) -> {(i,j): value}."""
    pos = text.index("&INDATA") + len("&INDATA")
    toks = []
    rest = text[pos:]
    i = 0
    while i < len(rest):
        c = rest[i]
        if c in " \t\r\n,":
            i += 1
        elif c == "!":
            while i < len(rest) and rest[i] != "\n":
                i += 1
        elif c in "'\"":
            j, s = i + 1, ""
            while True:
                if j >= len(rest):
                    raise ValueError("unterminated string")
                if rest[j] == c:
                    if j + 1 < len(rest) and rest[j + 1] == c:
                        s += c
                        j += 2
                        continue
                    break
                s += rest[j]
                j += 1
            toks.append(("str", s))
            i = j + 1
        elif c == "/":
            toks.append(("end", None))
            break
        elif c == "=":
            toks.append(("eq", None))
            i += 1
        else:
            m = re.match(r"[A-Za-z_]\w*\s*\(\s*([+-]?\d+)\s*(?:,\s*([+-]?\d+)\s*)?\)", rest[i:])
            if m:
                toks.append(("idx", (re.match(r"\w+", m.group(0)).group(0).lower(),
                                     tuple(int(g) for g in m.groups() if g is not None))))
                i += m.end()
                continue
            m = re.match(r"[^\s,=/'\"!]+", rest[i:])
            if not m:
                raise ValueError("bad character " + c)
            toks.append(("word", m.group(0)))
            i += m.end()
    if not toks or toks[-1][0] != "end":
        raise ValueError("no terminating /")
    out = {}
    k = 0
    while toks[k][0] != "end":
        if toks[k][0] not in ("word", "idx") or toks[k + 1][0] != "eq":
            raise ValueError(f"expected assignment at {toks[k:k + 3]}")
        name = toks[k][1]
        k += 2
        vals = []
        while toks[k][0] in ("word", "str") and toks[k + 1][0] != "eq":
            t, s = toks[k]
            if t == "str":
                vals.append(s)
            elif s.lower() in (".true.", ".t.", "t", "true"):
                vals.append(True)
            elif s.lower() in (".false.", ".f.", "f", "false"):
                vals.append(False)
            else:
                m = re.fullmatch(r"(\d+)\*(.+)", s)
                rep, s = (int(m.group(1)), m.group(2)) if m else (1, s)
                v = int(s) if re.fullmatch(r"[+-]?\d+", s) else float(s.lower().replace("d", "e"))
                vals += [v] * rep
            k += 1
        if isinstance(name, tuple):
            out.setdefault(name[0], {})[name[1]] = vals[0]
        else:
            out[name.lower()] = vals
    return out


def namelist_diffs(nml, v):
    bad = []
    for f in NML_FIELDS:
        want = getattr(v, f)
        got = nml.get(NML_NAME.get(f, f))
        if f in ("rbc", "zbs", "rbs", "zbc"):
            want = {} if want is None else {(n - v.ntor, m): want[m, n] for m in range(v.mpol)
                                            for n in range(2 * v.ntor + 1) if want[m, n] != 0.0}
            got = {k: float(x) for k, x in (got or {}).items() if float(x) != 0.0}
            if want != got:
                k = [x for x in set(want) | set(got) if want.get(x) != got.get(x)][:2]
                bad.append((f, str({x: want.get(x) for x in k}), str({x: got.get(x) for x in k})))
            continue
        if want is None:
            if got:
                bad.append((f, "unset", str(got)[:100]))
            continue
        if isinstance(want, np.ndarray):
            if isinstance(got, dict):
                got = [got.get((i,)) for i in range(len(want))]
            g = [float(x) for x in (got or [])]
            w = [float(x) for x in want]
            # trailing zeros may be left out of the axis, nothing else
            if f in NML_NAME:
                while w and w[-1] == 0.0:
                    w.pop()
                while g and g[-1] == 0.0:
                    g.pop()
            if w != g:
                bad.append((f, str(w)[:150], str(g)[:150]))
            continue
        if not got or len(got) != 1:
            bad.append((f, repr(want), str(got)[:100]))
            continue
        g = got[0]
        if isinstance(want, bool) or isinstance(want, str):
            if isinstance(g, str) and isinstance(want, str):
                ok = g.rstrip() == want.rstrip()     # Fortran pads with blanks
            else:
                ok = g is want
        else:
            ok = float(g) == float(want)
        if not ok:
            bad.append((f, repr(want)[:150], repr(g)[:150]))
    return bad


# ---------------------------------------------------------------- cases

def case_roundtrip(seed, i):
    import vmecpp
    from vmecpp import _util
    from vmecpp.cpp import _vmecpp
    VI = vmecpp.VmecInput
    rng = np.random.default_rng([seed, i, 8])
    d = gen(rng)
    viol, n = [], {}
    fields = list(VI.model_fields)
    dd = copy.deepcopy(d)
    v = VI(**d)
    before = Obj(snap(v, fields))

    def check(key, a, b, fs=fields):
        n[key] = n.get(key, 0) + len(fs)
        df = diffs(a, b, fs)
        for f, x, y in df[:3]:
            viol.append({"key": f"{key}:{f}", "msg": f"{key}: field {f} was {x}, became {y}",
                         "detail": {"input": {k: (w.tolist() if isinstance(w, np.ndarray) else w)
                                              for k, w in d.items()}}})

    # construction itself keeps the values and does not write into the arguments
    check("construct", Obj(dd), v, list(dd))
    check("construct_args", Obj(dd), Obj(d), list(dd))

    # native form and back
    c = v._to_cpp_vmecindata()
    check("to_native", v, c)
    w = VI._from_cpp_vmecindata(c)
    check("native_back", v, w)
    c2 = c.copy()
    check("native_copy", v, c2)
    # copies are independent
    if c.rbc.size:
        c2.rbc[0, 0] = 17.0
        c2.raxis_c[0] = 18.0
    check("native_copy_independent", v, c)
    check("native_back_independent", v, w)

    # files and text
    p = os.path.abspath(f"rt_{i}.json")
    v.save(p)
    check("file", v, VI.from_file(p))
    check("native_file", v, _vmecpp.VmecINDATA.from_file(p))
    v.save(p, indent=2)
    check("file_indent", v, VI.from_file(p))
    os.unlink(p)
    t = v.to_json()
    check("text", v, VI.model_validate_json(t))
    check("text_dict", v, VI.model_validate(json.loads(t)))
    check("dump", v, VI.model_validate(v.model_dump()))
    tn = c.to_json()
    check("native_text", v, VI.model_validate_json(tn))
    q = os.path.abspath(f"rn_{i}.json")
    with open(q, "w") as fh:
        fh.write(tn)
    check("native_text_file", v, VI.from_file(q))
    os.unlink(q)

    # classic namelist
    for src in (t, tn):
        nml = _util.vmecpp_json_to_indata(json.loads(src))
        n["namelist"] = n.get("namelist", 0) + len(NML_FIELDS)
        try:
            got = parse_namelist(nml)
        except (ValueError, IndexError) as e:
            viol.append({"key": "namelist:unreadable", "msg": f"exported namelist is malformed: {e}",
                         "detail": {"namelist": nml[:3000]}})
            continue
        for f, x, y in namelist_diffs(got, v)[:3]:
            viol.append({"key": f"namelist:{f}", "msg": f"namelist export: {f} was {x}, file has {y}",
                         "detail": {"input": t[:4000]}})
    # ... and through the file based converters (the reader is the stand-in)
    p = os.path.abspath(f"cv_{i}.json")
    v.save(p)
    with vmecpp.ensure_vmec2000_input(pathlib.Path(p)) as ip:
        text = open(ip).read()
        n["ensure_vmec2000"] = 1
        for f, x, y in namelist_diffs(parse_namelist(text), v)[:3]:
            viol.append({"key": f"ensure_vmec2000:{f}", "msg": f"ensure_vmec2000_input: {f} was {x}, file has {y}"})
    os.unlink(p)

    check("unchanged", before, v)
    st = ["asym" if v.lasym else "sym", f"m{v.mpol}n{v.ntor}", f"steps{len(v.ns_array)}", v.pmass_type,
          v.mgrid_file[:8]]
    return {"viol": viol, "evaluations": sum(n.values()), "counters": n, "states": ["/".join(map(str, st))]}


def expect_partial(j):
    """What a JSON file with the given entries must mean: documented defaults
    for everything omitted (literature: VMEC++ docs / VmecInput docstrings)."""
    d = {"lasym": False, "nfp": 1, "mpol": 6, "ntor": 0, "mpol_geometry": -1, "ntor_geometry": -1, "ntheta": 0,
         "nzeta": 0, "ns_array": np.array([31]), "ftol_array": np.array([1e-10]), "niter_array": np.array([100]),
         "phiedge": 1.0, "ncurr": 0, "pmass_type": "power_series", "am": [], "am_aux_s": [], "am_aux_f": [],
         "pres_scale": 1.0, "gamma": 0.0, "spres_ped": 1.0, "piota_type": "power_series", "ai": [],
         "ai_aux_s": [], "ai_aux_f": [], "pcurr_type": "power_series", "ac": [], "ac_aux_s": [], "ac_aux_f": [],
         "curtor": 0.0, "bloat": 1.0, "lfreeb": False, "mgrid_file": "NONE", "extcur": [], "nvacskip": 1,
         "free_boundary_method": "nestor", "iteration_style": "vmec_8_52", "nstep": 10, "aphi": [1.0],
         "delt": 1.0, "tcon0": 1.0, "lforbal": False, "return_outputs_even_if_not_converged": False}
    for k in list(d):
        if k in j:
            d[k] = j[k]
        if isinstance(d[k], list):
            d[k] = np.array(d[k], dtype=np.int64 if k in ("ns_array", "niter_array") else float)
    mp, nt = d["mpol"], d["ntor"]
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if k in ("raxis_s", "zaxis_c") and not d["lasym"]:
            d[k] = None
            continue
        a = np.zeros(nt + 1)
        x = j.get(k, [])
        a[:len(x)] = x
        d[k] = a
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if k in ("rbs", "zbc") and not d["lasym"]:
            d[k] = None
            continue
        a = np.zeros((mp, 2 * nt + 1))
        for e in j.get(k, []):
            if 0 <= e["m"] < mp and abs(e["n"]) <= nt:
                a[e["m"], e["n"] + nt] = e["value"]
        d[k] = a
    return d


def case_partial(seed, i):
    """Files (and texts) with entries left out, coefficients beyond the stated
    resolution, short axis arrays, arbitrary key order."""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    VI = vmecpp.VmecInput
    rng = np.random.default_rng([seed, i, 88])
    v = VI(**gen(rng))
    j = json.loads(v.to_json())
    mode = ["keep", "misfit", "short"][int(rng.integers(3))]
    p_keep = float(rng.choice([0.0, 0.2, 0.5, 0.9]))
    groups = [["ns_array", "ftol_array", "niter_array"], ["pmass_type", "am_aux_s", "am_aux_f"], ["piota_type", "ai_aux_s", "ai_aux_f"],
              ["pcurr_type", "ac_aux_s", "ac_aux_f"], ["ncurr", "bloat"], ["lasym", "rbs", "zbc", "raxis_s", "zaxis_c"],
              ["mpol", "ntor"], ["lfreeb", "free_boundary_method"]]
    grouped = {k for g in groups for k in g}
    kept = {}
    for k in j:
        if k not in grouped and rng.random() < p_keep:
            kept[k] = j[k]
    for g in groups:
        if rng.random() < p_keep:
            for k in g:
                if j[k] is None:
                    continue
                # within the asymmetric group single arrays may be omitted as well
                if k in ("rbs", "zbc", "raxis_s", "zaxis_c") and rng.random() < 0.4:
                    continue
                kept[k] = j[k]
    if rng.random() < 0.6:
        for k in ("mpol", "ntor"):
            kept[k] = j[k]
    nt = kept.get("ntor", 0)
    mp = kept.get("mpol", 6)
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if k in kept:
            kept[k] = kept[k][:nt + 1]
            if mode == "short":
                kept[k] = kept[k][:int(rng.integers(0, nt + 2))]
    if mode == "misfit":
        for k in ("rbc", "zbs", "rbs", "zbc"):
            if k in kept:
                for _ in range(6):
                    m, n = [(mp, 0), (0, nt + 1), (0, -nt - 1), (1, nt + 2), (mp - 1, -nt - 1), (mp + 3, nt + 1),
                            (mp - 1, nt), (0, -nt)][int(rng.integers(8))]
                    if not any(e["m"] == m and e["n"] == n for e in kept[k]):
                        kept[k].append({"m": m, "n": n, "value": flt(rng, nz=True)})
    keys = list(kept)
    rng.shuffle(keys)
    kept = {str(k): kept[str(k)] for k in keys}
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if k in kept:
            o = rng.permutation(len(kept[k]))
            kept[k] = [kept[k][x] for x in o]
    want = Obj(expect_partial(kept))
    viol, n = [], 0
    p = os.path.abspath(f"pt_{i}.json")
    with open(p, "w") as fh:
        json.dump(kept, fh)
    fields = list(VI.model_fields)
    for name, f in (("file", lambda: VI.from_file(p)), ("native_file", lambda: _vmecpp.VmecINDATA.from_file(p)),
                    ("text", lambda: VI.model_validate_json(json.dumps(kept))),
                    ("dict", lambda: VI.model_validate(kept))):
        try:
            got = f()
        except Exception as e:      # noqa: BLE001
            viol.append({"key": f"omitted:{name}:raised", "msg": f"{name} with entries omitted was refused: "
                         f"{type(e).__name__}: {str(e).strip()[:200]}", "detail": {"json": kept}})
            continue
        n += len(fields)
        for fl, x, y in diffs(want, got, fields)[:3]:
            viol.append({"key": f"omitted:{name}:{fl}", "msg": f"{name} with entries omitted: {fl} should be {x}, "
                         f"is {y}", "detail": {"json": kept}})
        if name != "native_file":
            # what is loaded can be handed to the solver unchanged
            try:
                c = got._to_cpp_vmecindata()
            except Exception as e:      # noqa: BLE001
                viol.append({"key": f"omitted:{name}:to_native", "msg": f"input loaded by {name} is not usable: "
                             f"{type(e).__name__}: {str(e).strip()[:200]}", "detail": {"json": kept}})
                continue
            n += len(fields)
            for fl, x, y in diffs(want, c, fields)[:3]:
                viol.append({"key": f"omitted:{name}:native:{fl}", "msg": f"{name} with entries omitted, native form: "
                             f"{fl} should be {x}, is {y}", "detail": {"json": kept}})
    os.unlink(p)
    return {"viol": viol, "evaluations": n, "counters": {"partial_fields": n},
            "states": [f"partial/{mode}/{p_keep}/{'asym' if kept.get('lasym') else 'sym'}/m{mp}n{nt}"]}


def case_schedule(seed, i):
    """Fourier continuation schedules (sequences for mpol/ntor)."""
    import vmecpp
    VI = vmecpp.VmecInput
    rng = np.random.default_rng([seed, i, 888])
    d = gen(rng)
    k = len(d["ns_array"])
    if k == 1:
        k = 2
        d["ns_array"] = np.array([5, 7])
        d["ftol_array"] = np.array([1e-9, 1e-10])
        d["niter_array"] = np.array([10, 11])
    mp, nt = d["mpol"], d["ntor"]
    which = int(rng.integers(3))
    if which != 1:
        d["mpol"] = np.sort(np.append(rng.integers(2, mp + 1, k - 1), mp)).astype(np.int64)
    if which != 0:
        d["ntor"] = np.sort(np.append(rng.integers(0, nt + 1, k - 1), nt)).astype(np.int64)
    v = VI(**d)
    viol, n = [], 0
    fields = list(VI.model_fields)
    p = os.path.abspath(f"sc_{i}.json")
    v.save(p)
    for name, f in (("file", lambda: VI.from_file(p)), ("text", lambda: VI.model_validate_json(v.to_json())),
                    ("dump", lambda: VI.model_validate(v.model_dump()))):
        try:
            w = f()
        except Exception as e:      # noqa: BLE001
            viol.append({"key": f"schedule:{name}:raised", "msg": f"an input with mpol/ntor given per grid step cannot "
                         f"be read back ({name}): {type(e).__name__}: {str(e).strip()[:200]}"})
            continue
        n += len(fields)
        for fl, x, y in diffs(v, w, fields)[:3]:
            viol.append({"key": f"schedule:{name}:{fl}", "msg": f"schedule {name}: {fl} was {x}, became {y}"})
    os.unlink(p)
    c = v._to_cpp_vmecindata()
    n += 2
    if (c.mpol, c.ntor) != (mp, nt):
        viol.append({"key": "schedule:native", "msg": f"native resolution {c.mpol},{c.ntor} is not the final one {mp},{nt}"})
    return {"viol": viol, "evaluations": n, "counters": {"schedule_fields": n}, "states": [f"schedule/{which}/{k}"]}


def case_resize(seed, i):
    """Coefficient arrays of another size than the stated resolution, dense."""
    import vmecpp
    VI = vmecpp.VmecInput
    rng = np.random.default_rng([seed, i, 8888])
    viol, n = [], 0
    for _ in range(20):
        mp, nt = int(rng.integers(2, 9)), int(rng.integers(0, 6))
        m2, n2 = int(rng.integers(1, 11)), int(rng.integers(0, 8))
        lasym = bool(rng.integers(2))
        names = ["rbc", "zbs"] + (["rbs", "zbc"] if lasym else [])
        kw = {k: rng.standard_normal((m2, 2 * n2 + 1)) for k in names}
        kc = copy.deepcopy(kw)
        v = VI(mpol=mp, ntor=nt, lasym=lasym, **kw)
        for k in names:
            want = np.zeros((mp, 2 * nt + 1))
            for m in range(min(mp, m2)):
                for q in range(-min(nt, n2), min(nt, n2) + 1):
                    want[m, nt + q] = kc[k][m, n2 + q]
            n += 1
            if not same(want, getattr(v, k)):
                viol.append({"key": f"resize:{k}", "msg": f"{k} of shape {(m2, 2 * n2 + 1)} given with mpol={mp}, "
                             f"ntor={nt}: modes changed place or value"})
            if not same(kc[k], kw[k]):
                viol.append({"key": f"resize_arg:{k}", "msg": f"{k}: the caller's array was modified"})
            r = VI.resize_2d_coeff(kw[k], mp, nt)
            n += 1
            if not same(want, r):
                viol.append({"key": "resize_2d", "msg": "resize_2d_coeff moves or changes modes"})
        a = rng.standard_normal(int(rng.integers(0, 8)))
        n += 1
        try:
            v = VI(mpol=mp, ntor=nt, raxis_c=a)
            want = np.zeros(nt + 1)
            if len(a) > nt + 1:
                viol.append({"key": "axis_long", "msg": f"axis array of length {len(a)} accepted for ntor={nt}"})
            else:
                want[:len(a)] = a
                if not same(want, v.raxis_c):
                    viol.append({"key": "axis_pad", "msg": f"short axis array {a} became {v.raxis_c}"})
        except ValueError:
            if len(a) <= nt + 1:
                viol.append({"key": "axis_short", "msg": f"axis array of length {len(a)} refused for ntor={nt}"})
    return {"viol": viol, "evaluations": n, "counters": {"resize": n}, "states": [f"resize/{i}"]}


def case_defaults():
    import vmecpp
    from vmecpp.cpp import _vmecpp
    VI = vmecpp.VmecInput
    fields = list(VI.model_fields)
    want = Obj(expect_partial({}))
    p = os.path.abspath("empty.json")
    open(p, "w").write("{}")
    viol, n = [], 0
    for name, got in (("VmecInput()", VI()), ("default()", VI.default()), ("VmecINDATA()", _vmecpp.VmecINDATA()),
                      ("empty file", VI.from_file(p)), ("empty native file", _vmecpp.VmecINDATA.from_file(p)),
                      ("empty text", VI.model_validate_json("{}"))):
        n += len(fields)
        for fl, x, y in diffs(want, got, fields):
            viol.append({"key": f"default:{name}:{fl}", "msg": f"default of {fl} in {name} is {y}, documented {x}"})
    # defaults are not shared between objects
    a = VI()
    a.rbc[0, 0] = 5.0
    a.aphi[0] = 3.0
    a.ns_array[0] = 99
    for fl, x, y in diffs(want, VI(), fields):
        viol.append({"key": f"default_shared:{fl}", "msg": f"changing one default object changed {fl} of the next: {y}"})
    os.unlink(p)
    return {"viol": viol, "evaluations": n, "counters": {"default_fields": n}, "states": ["defaults"]}


PAIRS = ["circular_tokamak", "cma", "cth_like_fixed_bdy", "cth_like_fixed_bdy_nzeta_37",
         "cth_like_fixed_bdy_spline_pressure", "cth_like_free_bdy", "cth_like_free_bdy_asym", "li383_low_res", "solovev",
         "solovev_analytical", "solovev_free_bdy", "solovev_no_axis", "up_down_asym", "near_axis_iota_nfp4"]


def case_shipped(name):
    """JSON inputs of the repository: read by the native reader, by pydantic and
    by hand, exported to a namelist and read back from there."""
    import vmecpp
    from vmecpp import _util
    from vplib import core
    VI = vmecpp.VmecInput
    p = f"{core.REPO}/src/vmecpp/cpp/vmecpp/test_data/{name}.json"
    if not os.path.exists(p):
        return {"skip": "no such file"}
    j = json.load(open(p))
    want = Obj(expect_partial(j))
    viol, n = [], 0
    fields = list(VI.model_fields)
    v = VI.from_file(p)
    n += len(fields)
    for fl, x, y in diffs(want, v, fields)[:3]:
        viol.append({"key": f"shipped:{fl}", "msg": f"{name}: {fl} in file {x}, loaded {y}"})
    nml = _util.vmecpp_json_to_indata(json.loads(v.to_json()))
    n += len(NML_FIELDS)
    for f, x, y in namelist_diffs(parse_namelist(nml), v)[:3]:
        viol.append({"key": f"shipped_namelist:{f}", "msg": f"{name}: namelist export: {f} was {x}, file has {y}"})
    ip = os.path.abspath(f"input.{name}")
    open(ip, "w").write(nml)
    w = VI.from_file(ip)
    skip = {"mpol_geometry", "ntor_geometry", "free_boundary_method", "iteration_style",
            "return_outputs_even_if_not_converged"}
    n += len(fields)
    for fl, x, y in diffs(v, w, [f for f in fields if f not in skip])[:3]:
        if fl == "mgrid_file" and os.path.basename(eval(x)) == os.path.basename(eval(y)):
            continue
        viol.append({"key": f"shipped_via_namelist:{fl}", "msg": f"{name} via namelist: {fl} was {x}, became {y}"})
    os.unlink(ip)
    return {"viol": viol, "evaluations": n, "counters": {"shipped_fields": n}, "states": [f"shipped/{name}"]}


def main(ctx):
    ctx.package()
    k = 8 if ctx.thorough else 1
    cases = [{"fn": "case_defaults", "tag": "defaults"}]
    cases += [{"fn": "case_shipped", "tag": p, "name": p} for p in PAIRS]
    for i in range(150 * k):
        cases.append({"fn": "case_roundtrip", "tag": f"rt{i}", "seed": ctx.seed, "i": i})
    for i in range(300 * k):
        cases.append({"fn": "case_partial", "tag": f"pt{i}", "seed": ctx.seed, "i": i})
    for i in range(40 * k):
        cases.append({"fn": "case_schedule", "tag": f"sc{i}", "seed": ctx.seed, "i": i})
    for i in range(10 * k):
        cases.append({"fn": "case_resize", "tag": f"rs{i}", "seed": ctx.seed, "i": i})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=120)
    return ctx.finish(
        "exploration",
        "generated inputs are carried through every conversion (native object, JSON file, JSON text, dictionary, "
        "namelist) and compared field by field, bit by bit, with what was put in; omitted entries are compared with "
        "the documented defaults and misfitting coefficients with an independent placement",
        ["the classic namelist is read by an independent parser and by a stand-in for the external Fortran converter",
         "the namelist format has no counterpart for mpol_geometry, ntor_geometry, free_boundary_method, "
         "iteration_style and return_outputs_even_if_not_converged"],
        min_evaluations=5000, min_states=30)
