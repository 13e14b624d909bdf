#!/bin/bash
# usage: quiet.sh DIR [PROP ...]: every check (quick) against the tree in DIR; prints the checks which are not quiet
d=$1; shift
cd "$(dirname "$0")/.." || exit 2
for p in ${@:-$(seq -f C%02g 1 28)}; do
  MC_OUT=/tmp ELGAS_REPO=$d VERIF_SEED=1 timeout 900 /opt/venv/bin/python -B check.py $p quick > /tmp/quiet.$$ 2>&1 || { echo "$p rc=$?"; grep -m2 VIOLATION /tmp/quiet.$$; tail -2 /tmp/quiet.$$ | cut -c1-400; }
done
rm -f /tmp/quiet.$$
