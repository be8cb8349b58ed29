"""Workload inputs.  `base(name)` are shipped configurations (at resolutions that
run in well under a second); `random_input(rng)` draws perturbed variants."""
import copy
import json
import os

import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
TD = f"{REPO}/src/vmecpp/cpp/vmecpp/test_data"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = f"{VERIF}/data"


def raw(name):
    """Shipped inputs are copied under /verif/data, so that the workload does
    not silently change with the tree."""
    return json.load(open(f"{DATA}/{name}.json"))


def base(name, **over):
    d = raw(name)
    d.update(over)
    return d


def coef(d, key, m, n):
    for c in d.get(key, []):
        if c["m"] == m and c["n"] == n:
            return c["value"]
    return 0.0


def set_coef(d, key, m, n, v):
    d.setdefault(key, [])
    for c in d[key]:
        if c["m"] == m and c["n"] == n:
            c["value"] = float(v)
            return
    d[key].append({"m": int(m), "n": int(n), "value": float(v)})


def single(d, ns, ftol, niter=4000):
    d["ns_array"], d["ftol_array"], d["niter_array"] = [int(ns)], [ftol], [int(niter)]
    return d


def multi(d, ns, ftol, niter=4000):
    n = len(ns)
    d["ns_array"] = [int(x) for x in ns]
    d["ftol_array"] = list(ftol) if isinstance(ftol, (list, tuple)) else [ftol] * n
    d["niter_array"] = [int(niter)] * n
    return d


def mk(d, tmp="case.json"):
    """dict -> VmecInput through the public file loader."""
    import vmecpp
    import tempfile
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as fh:
        json.dump(d, fh)
    try:
        return vmecpp.VmecInput.from_file(path)
    finally:
        os.unlink(path)


def tokamak(rng, ns=None):
    R0 = rng.uniform(2.5, 7.0)
    a = R0 * rng.uniform(0.12, 0.3)
    kap = rng.uniform(0.8, 1.7)
    tri = rng.uniform(-0.25, 0.35)
    mpol = int(rng.integers(4, 9))
    d = {"lasym": False, "nfp": 1, "mpol": mpol, "ntor": 0,
         "ntheta": int(rng.choice([0, 0, 2 * mpol + 8, 2 * mpol + 9, 2 * mpol + 15])),
         "nzeta": int(rng.choice([0, 1])), "delt": 0.8, "tcon0": 1.0, "nstep": 200,
         "phiedge": float(rng.choice([-1, 1]) * rng.uniform(0.5, 8.0) * a * a),
         "raxis_c": [float(R0 + 0.1 * a)], "zaxis_s": [0.0],
         "rbc": [{"m": 0, "n": 0, "value": R0}, {"m": 1, "n": 0, "value": a},
                 {"m": 2, "n": 0, "value": 0.5 * tri * a}],
         "zbs": [{"m": 1, "n": 0, "value": kap * a}, {"m": 2, "n": 0, "value": -0.5 * tri * a * 0.5}],
         "lfreeb": False, "mgrid_file": "NONE", "gamma": 0.0, "spres_ped": 1.0}
    single(d, ns or int(rng.choice([9, 12, 17, 23])), 1e-12)
    B = abs(d["phiedge"]) / (np.pi * a * a * kap)
    d["pmass_type"] = "power_series"
    p0 = 0.02 * B * B / (8e-7 * np.pi) * rng.uniform(0, 1)
    d["am"] = [float(p0), float(-p0)]
    d["pres_scale"] = 1.0
    sg = float(rng.choice([-1, 1]))
    if rng.random() < 0.6:
        d["ncurr"] = 0
        d["piota_type"] = "power_series"
        d["ai"] = [sg * float(rng.uniform(0.6, 1.0)), sg * float(rng.uniform(-0.5, 0.0))]
    else:
        d["ncurr"] = 1
        d["pcurr_type"] = "power_series"
        d["ac"] = [1.0, float(rng.uniform(-1.0, -0.3))]
        Bp = B * a / R0 * rng.uniform(0.3, 0.7)
        d["curtor"] = float(sg * 2 * np.pi * a * Bp / (4e-7 * np.pi))
    return d


def stellarator(rng, ns=None, name=None):
    name = name or str(rng.choice(["cth_like_fixed_bdy", "li383_low_res"]))
    d = raw(name)
    if name == "cth_like_fixed_bdy":
        d["mpol"], d["ntor"] = int(rng.integers(4, 6)), int(rng.integers(2, 5))
        d["delt"] = 0.7
    else:
        d["mpol"], d["ntor"] = 4, int(rng.integers(2, 4))
    for k in ("rbc", "zbs"):
        d[k] = [c for c in d[k] if c["m"] < d["mpol"] and abs(c["n"]) <= d["ntor"]]
    for k in ("raxis_c", "zaxis_s"):
        d[k] = d[k][:d["ntor"] + 1]
    nmin = 2 * d["ntor"] + 4
    d["nzeta"] = int(rng.choice([0, nmin, nmin + 1, nmin + 2, nmin + 3, 16, 18, 20]))
    d["ntheta"] = int(rng.choice([0, 0, 2 * d["mpol"] + 8, 2 * d["mpol"] + 9]))
    single(d, ns or int(rng.choice([7, 9, 12, 15])), 1e-10, 6000)
    d["phiedge"] = float(d["phiedge"] * rng.choice([-1, 1]) * rng.uniform(0.8, 1.2))
    if d.get("curtor"):
        d["curtor"] = float(d["curtor"] * rng.uniform(0.5, 1.1))
    d["pres_scale"] = float(d.get("pres_scale", 1.0) * rng.uniform(0.3, 1.2))
    for c in d["rbc"] + d["zbs"]:
        if not (c["m"] == 0 and c["n"] == 0):
            c["value"] = float(c["value"] * rng.uniform(0.97, 1.03))
    return d


def asymmetrise(d, rng, amp=0.05):
    """add a mild non-stellarator-symmetric perturbation"""
    d = copy.deepcopy(d)
    d["lasym"] = True
    a = abs(coef(d, "rbc", 1, 0)) or 0.2
    d["rbs"], d["zbc"] = [], []
    if d["ntor"] == 0:
        set_coef(d, "rbs", 2, 0, amp * a * rng.uniform(-1, 1))
        set_coef(d, "zbc", 2, 0, amp * a * rng.uniform(-1, 1))
        set_coef(d, "zbc", 1, 0, amp * a * rng.uniform(-1, 1))
        set_coef(d, "rbs", 1, 0, amp * a * rng.uniform(-1, 1))
        set_coef(d, "zbc", 0, 0, amp * a * rng.uniform(-1, 1))
    else:
        for n in (-1, 0, 1):
            set_coef(d, "rbs", 1, n, 0.4 * amp * a * rng.uniform(-1, 1))
            set_coef(d, "zbc", 1, n, 0.4 * amp * a * rng.uniform(-1, 1))
        set_coef(d, "rbs", 2, 0, 0.4 * amp * a * rng.uniform(-1, 1))
        set_coef(d, "rbs", 0, 1, 0.4 * amp * a * rng.uniform(-1, 1))
        set_coef(d, "zbc", 0, 1, 0.4 * amp * a * rng.uniform(-1, 1))
    d["raxis_s"] = [0.0] * (d["ntor"] + 1)
    d["zaxis_c"] = [0.0] * (d["ntor"] + 1)
    return d


def fixed_boundary(rng, ns=None):
    """A random valid fixed-boundary input and a description tag."""
    kind = rng.choice(["tok", "stell", "tok", "stell", "asymtok", "asym3d"])
    if kind in ("tok", "asymtok"):
        d = tokamak(rng, ns)
    else:
        d = stellarator(rng, ns)
    if kind.startswith("asym"):
        d = asymmetrise(d, rng, 0.1)
    if rng.random() < 0.3:
        n = d["ns_array"][0]
        multi(d, [max(5, n // 2), n], d["ftol_array"][0])
    return d, str(kind)


def options(d, rng):
    """random legal option changes that keep the problem well posed"""
    d = copy.deepcopy(d)
    r = rng.random
    if r() < 0.25:
        d["gamma"] = float(rng.choice([0.5, 5.0 / 3.0]))
        # mass instead of pressure: scale so that beta stays moderate
        d["pres_scale"] = float(d.get("pres_scale", 1.0) * 0.3)
    if r() < 0.25:
        d["spres_ped"] = float(rng.uniform(0.4, 0.95))
    if r() < 0.2 and d.get("ncurr") == 1:
        # (with prescribed iota the code requires bloat == 1)
        d["bloat"] = float(rng.uniform(1.0, 1.2))
    if r() < 0.2:
        x = float(rng.uniform(0.1, 0.4))
        d["aphi"] = [1.0 - x, x]
    if r() < 0.2:
        d["lforbal"] = True
    if r() < 0.2:
        d["tcon0"] = float(rng.choice([0.3, 0.5, 0.9]))
    if r() < 0.3:
        d["mpol_geometry"] = int(rng.integers(3, d["mpol"] + 1))
    if r() < 0.2 and d["ntor"] > 1:
        d["ntor_geometry"] = int(rng.integers(1, d["ntor"] + 1))
    return d
