#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]: decide one property on /repo's tree."""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/vp/venv" and os.path.exists(PY):
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
from vplib import core  # noqa: E402


def main():
    # background jobs start with SIGINT ignored: give the processes under test the usual disposition
    signal.signal(signal.SIGINT, signal.default_int_handler)
    prop = sys.argv[1].upper()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    name = prop.lower()
    mod = importlib.import_module(f"checks.{name}")
    ctx = core.Ctx(prop, name)
    if replay:
        ctx.only = json.load(open(replay)).get("detail", {}).get("case")
    try:
        mod.main(ctx)
        return ctx.rc
    except core.HarnessError as e:
        print(f"ERROR: {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VP_KEEP"):
            ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
