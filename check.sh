#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
bash setup.sh >/dev/null 2>&1 || { bash setup.sh; echo "engine build failed"; exit 2; }
exec ./bin/gosym -prop "$id" -tier "$tier" -verif "$PWD" -repo "${REPO:-/repo}" "$@"
