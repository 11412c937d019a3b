#!/bin/bash
# Builds the MIR driver, the dump of the current tree and the harness (checks rebuild what is stale).
cd "$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")" || exit 2
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
python3-vt - <<'PY'
import sys
sys.path.insert(0, 'engine')
import build
import registry
for r in registry.ROOTS:
    d, t = build.dump(r)
    print(r, len(d['fns']), 'functions', round(t, 1), 's')
print(build.harness())
PY
