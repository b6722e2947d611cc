#!/bin/bash
# setup.sh: nothing to build; make sure that the interpreter and packages work
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "
import sys
assert sys.version_info >= (3, 12), sys.version
sys.path.insert(0, '.')
from vmon import core, gen, sched, wire
"
