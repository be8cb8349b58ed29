#!/usr/bin/env python3
"""mkseed.py ID: take the uncommitted change in /tmp/sr (a copy of /repo), store
it as seeded/ID/patch.diff, add the self-contained demo kit, undo the change.
demo.py and meta.json are written by hand next to it."""
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{V}/seeded/{sys.argv[1]}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("SD", "/tmp/sd"), "diff"], capture_output=True, text=True).stdout
if diff.strip():
    open(f"{d}/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", os.environ.get("SD", "/tmp/sd"), "checkout", "--", "."], check=True)
for sub in ("shim", "tools", "vplib", "data"):
    shutil.rmtree(f"{d}/kit/{sub}", ignore_errors=True)
shutil.copytree(f"{V}/shim", f"{d}/kit/shim")
os.makedirs(f"{d}/kit/tools")
shutil.copy(f"{V}/tools/build.py", f"{d}/kit/tools/build.py")
shutil.copy(f"{V}/tools/indata2json.py", f"{d}/kit/tools/indata2json.py")
os.makedirs(f"{d}/kit/vplib")
for f in ("__init__", "core", "inputs", "work", "eq", "freeb"):
    shutil.copy(f"{V}/vplib/{f}.py", f"{d}/kit/vplib/{f}.py")
shutil.copytree(f"{V}/data", f"{d}/kit/data")
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# builds the extension from the current tree in a scratch directory and runs demo.py
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export VP_REPO="$PWD" VP_BUILD="$scratch/build"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TMPDIR="$scratch" JAX_PLATFORMS=cpu
/opt/vp/venv/bin/python - "$here/kit" "$scratch" <<'EOF' || exit 3
import sys
sys.path.insert(0, sys.argv[1])
from vplib import core
core.VERIF = sys.argv[1]
outs, _ = core.vpbuild.build("rel", ["pymod"])
core.assemble_package(sys.argv[2] + "/pkg", outs[0])
EOF
cd "$scratch" && PYTHONPATH="$scratch/pkg:$here/kit:$here" /opt/vp/venv/bin/python "$here/demo.py"
''')
os.chmod(f"{d}/demo.sh", 0o755)
print("ok", d)
