#!/bin/bash
# check.sh ID [quick|thorough]
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export TIER="${2:-${VERIF_TIER:-quick}}"
# development only: a scratch copy of the repository to judge instead
export VERIF_REPO="${VERIF_REPO:-/repo}"
LOG=$(mktemp)
if [ "$VERIF_REPO" = /repo ]; then build_ext >"$LOG" 2>&1
else (cd "$VERIF_REPO" && "$PY" setup.py build_ext --inplace --force && ls countbits.cpython-312*.so) >"$LOG" 2>&1; fi \
    || { cat "$LOG"; rm -f "$LOG"; echo "countbits does not build" >&2; exit 2; }
rm -f "$LOG"
cd "$HERE" || exit 2
export PYTHONPATH="$VERIF_REPO:$HERE/harness" PYTHONWARNINGS=ignore
exec "$PY" -W ignore "$HERE/harness/run.py" "$@"
