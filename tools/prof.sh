#!/bin/bash
# tools/prof.sh CXX [config]: profile one shard
cd /verif
A=$(ls -td .build/accel-* | head -1)
export VERIF_REPO=/repo VERIF_HYP=/opt/veriftools/pyvenv/lib/python3.12/site-packages VERIF_ACCEL_DIR=/verif/$A VERIF_CONFIG=${2:-accel0} HYPOTHESIS_NO_PLUGINS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
P=/repo; [ $VERIF_CONFIG = accel1 ] && P=/verif/$A:/repo
PYTHONPATH=$P /opt/venv/bin/python -m cProfile -s tottime harness/worker.py run $1 0 4 1 quick /tmp/prof.$1 "" 0.3 2>&1 | head -${3:-40}
rm -f /tmp/prof.$1.*
