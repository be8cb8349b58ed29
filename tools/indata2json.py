"""Stand-in for the external Fortran indata2json (absent here): INDATA -> VMEC++ JSON."""
import json
import os
import sys
import f90nml

args = sys.argv[1:]
folder = None
if args and args[0] == "--mgrid_folder":
    folder = args[1]
    args = args[2:]
fn = args[0]
nml = f90nml.Parser().read(fn)
g = None
for k in nml:
    if k.lower() == "indata":
        g = nml[k]
if g is None:
    sys.stderr.write("no INDATA namelist\n")
    sys.exit(1)
out = {}
REN = {"raxis_cc": "raxis_c", "raxis": "raxis_c", "zaxis_cs": "zaxis_s", "zaxis": "zaxis_s",
       "raxis_cs": "raxis_s", "zaxis_cc": "zaxis_c"}
ARR = {"ns_array", "ftol_array", "niter_array", "aphi", "am", "am_aux_s", "am_aux_f", "ai",
       "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s", "ac_aux_f", "extcur",
       "raxis_c", "zaxis_s", "raxis_s", "zaxis_c"}
KEEP = {"lasym", "nfp", "mpol", "ntor", "ntheta", "nzeta", "delt", "tcon0", "lforbal", "nstep",
        "phiedge", "pmass_type", "pres_scale", "gamma", "spres_ped", "ncurr", "piota_type",
        "pcurr_type", "curtor", "bloat", "lfreeb", "mgrid_file", "nvacskip"}
start = g.start_index
for k, v in g.items():
    k = k.lower()
    if k in ("rbc", "zbs", "rbs", "zbc"):
        n0, m0 = start[k]
        lst = []
        for i, row in enumerate(v):
            for j, x in enumerate(row if row is not None else []):
                if x is not None:
                    lst.append({"n": n0 + j, "m": m0 + i, "value": float(x)})
        out[k] = lst
        continue
    k = REN.get(k, k)
    if k in ARR:
        if not isinstance(v, list):
            v = [v]
        out[k] = [int(x) if k in ("ns_array", "niter_array") else float(x) for x in v if x is not None]
    elif k in KEEP:
        out[k] = v
if folder and out.get("mgrid_file", "NONE").upper() != "NONE":
    out["mgrid_file"] = os.path.join(folder, out["mgrid_file"])
name = os.path.basename(fn)
name = name[6:] if name.startswith("input.") else name
json.dump(out, open(name + ".json", "w"), indent=1)
