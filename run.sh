#!/bin/bash
# run.sh <property id> [--replay FILE]: one check, observing the code in /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'chmod -R u+rwX "$W" 2>/dev/null; rm -rf "$W"' EXIT
mkdir "$W/home" "$W/pyc"
unset PYTHONPATH http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
export HOME="$W/home" TMPDIR="$W" VERIF_WORK="$W" PYTHONPYCACHEPREFIX="$W/pyc" PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 NO_PROXY='*'
export VERIF_REPO="${VERIF_REPO:-/repo}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
cd "$VERIF_REPO" || exit 2
/opt/venv/bin/python -W ignore "$here/checks/main.py" "$@"
exit $?
