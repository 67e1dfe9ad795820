#!/bin/bash
# Nothing to compile: check that the toolchain the checks need is there.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import dascore, harness.run; print(dascore.__file__)" || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -h >/dev/null 2>&1
exit 0
