#!/bin/bash
# Nothing is built: the checks import the code from /repo.  This verifies that they can.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export PYTHONDONTWRITEBYTECODE=1
cd /tmp && d=$(mktemp -d) && cd "$d" || exit 1
PYTHONPATH="$V/lib" /opt/veriftools/pyvenv/bin/python -B -c "
import hypothesis, boot
boot.install()
import ml.tree.hetero_secureboosting_tree_guest, ml.secureprotol.fate_paillier
" >/dev/null
r=$?
rm -rf "$d"
exit $r
