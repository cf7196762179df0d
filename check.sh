#!/bin/bash
# check.sh <PROPERTY-ID> [--replay FILE] [--workers N]
# Decides one property of /repo's current working tree.  See DESIGN.md.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export DASK_DATAFRAME__QUERY_PLANNING=False
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TZ=UTC LANG=C.UTF-8
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export PYTHONPATH="$HERE${PBT_REPO:+:$PBT_REPO}"
cd "$HERE" || exit 3
exec /opt/venv/bin/python -m pbt.run "$@"
