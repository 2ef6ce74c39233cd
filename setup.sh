#!/bin/sh
# nothing to build: the checks are Python and run the library from /repo; make sure the interpreter is there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/pypyvenv/bin/python -c 'import sys; print(sys.version)'
