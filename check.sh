#!/bin/bash
# check.sh <property>
cd "$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")" || exit 2
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
exec python3-vt engine/check.py "$@"
