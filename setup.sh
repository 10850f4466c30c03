#!/bin/bash
# Nothing to build: the checks are Python and import /repo directly.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
. /opt/vp/env.sh
cd "$here"
PYTHONPATH="$here" python -c 'import mc.report, jax; print("ok", jax.__version__)'
