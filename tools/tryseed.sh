#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on clean and patched /repo, then the checks on the patched tree
id="$1"; shift
P=/verif/seeded/$id/patch.diff
cd /repo || exit 9
if [ -z "$SKIPCLEAN" ]; then bash /verif/seeded/$id/demo.sh >/tmp/demo.clean 2>&1; echo "clean demo rc=$?"; fi
git apply $P || exit 9
bash /verif/seeded/$id/demo.sh >/tmp/demo.bad 2>&1; echo "patched demo rc=$?"; tail -2 /tmp/demo.bad
for c in "$@"; do (cd /verif; python3 check.py $c >/tmp/chk.$c 2>&1; echo "$c rc=$?"; grep -m3 -B1 VIOLATION /tmp/chk.$c); done
git -C /repo checkout -- .
