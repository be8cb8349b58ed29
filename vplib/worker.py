"""Persistent worker: one JSON case per line in, one JSON result per line out."""
import importlib
import json
import os
import sys
import traceback

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)          # the code under test prints to fd 1
mod = importlib.import_module("checks." + sys.argv[1])
for line in sys.stdin:
    c = json.loads(line)
    sys.stderr.flush()
    try:
        r = getattr(mod, c["fn"])(**{k: v for k, v in c.items() if k not in ("fn", "tag")})
        r = dict(r or {})
        r["kind"] = "ok"
    except Exception as e:
        if type(e).__name__ == "Skip":
            out.write(json.dumps({"kind": "ok", "skip": str(e)[:500]}) + "\n")
            out.flush()
            continue
        tb = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        r = {"kind": "error", "etype": type(e).__name__, "emsg": str(e)[:2000], "tb": tb[-6000:],
             "in_package": type(e).__name__ == "Unexpected" or any("/vmecpp/" in f and "/verif/checks" not in f for f in frames)}
    try:
        s = json.dumps(r, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o))
    except ValueError as e:
        s = json.dumps({"kind": "error", "etype": "ValueError", "emsg": str(e), "tb": str(e)})
    out.write(s + "\n")
    out.flush()
