#!/bin/bash
# compiles the TLC module override and runs its self-test
cd "$(dirname "$0")" || exit 1
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python - <<'PY'
import sys
from vlib import core
r = core.tlc('RealArithTest')
if '<<"SELFTEST", {}>>' not in r.out:
    print(r.out); sys.exit('self-test of the real-arithmetic override failed')
v = core.variants(('c',))
print('setup ok')
PY
