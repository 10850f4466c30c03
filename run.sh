#!/bin/bash
# usage: run.sh <property id> <quick|thorough>
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
cd "$here"
export PYTHONPATH="$here" PYTHONHASHSEED=0 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 MPLBACKEND=Agg
export VERIF_TIER="${2:-quick}"
export OMP_NUM_THREADS=1 TQDM_DISABLE=1
exec python "$here/mc/checks/$1.py" --tier "$VERIF_TIER" 2>"/dev/null"
