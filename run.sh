#!/bin/bash
# run.sh <ID> [args]: runs one check with the interpreter that has the repository's dependencies.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/vh_mpl}"
id="$1"; shift
exec /opt/venv/bin/python "checks/$id.py" "$@"
