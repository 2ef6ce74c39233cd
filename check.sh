#!/bin/sh
# ./check.sh <PROPERTY> [thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/pypyvenv/bin/python -c 'import sys; sys.path.insert(0, "."); from mc import core; sys.exit(core.main(sys.argv[1:]))' "$@"
