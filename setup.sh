#!/bin/bash
# Nothing is built ahead of time: each check builds what it needs. This warms the Go build cache.
cd "$(dirname "$0")" || exit 1
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 python3 - <<'PY'
import shutil, tempfile
from vf import core
d = tempfile.mkdtemp()
try:
    core.Ctx(d).build()
finally:
    shutil.rmtree(d)
PY
