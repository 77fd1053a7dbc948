#!/bin/bash
# Nothing to build: modepy is pure Python and is imported from /repo's working tree.
# This only verifies that the interpreter and the libraries the checks need are there.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, hypothesis, mpmath, pymbolic, pytools, modepy
assert modepy.__file__.startswith("/repo/"), modepy.__file__
print("ok", numpy.__version__, scipy.__version__, hypothesis.__version__)
PY
