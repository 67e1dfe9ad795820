#!/bin/bash
# check.sh PROPERTY [args]   -- run one property check against /repo's working tree
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
export VERIF_SEED="${VERIF_SEED:-1}" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m harness.run "$@"
