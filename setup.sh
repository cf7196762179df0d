#!/bin/bash
# Nothing is compiled: checks run against /repo's working tree as it is.  This
# verifies that the interpreter, hypothesis and the library are importable.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$HERE" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE" DASK_DATAFRAME__QUERY_PLANNING=False
exec /opt/venv/bin/python -c 'from pbt import env; env.init(); import hypothesis; print("ok", hypothesis.__version__)'
