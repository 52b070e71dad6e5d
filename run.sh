#!/bin/bash
# usage: run.sh Cxx [quick|thorough] | --replay FILE | --selftest
set -u
cd "$(dirname "$0")"
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
export VERIF_REPO="${VERIF_REPO:-/repo}"
WORK=$(mktemp -d /tmp/vmon.XXXXXX)
export PYTHONPYCACHEPREFIX="$WORK/pyc" VMON_WORK="$WORK" TMPDIR="$WORK"
trap 'rm -rf "$WORK"' EXIT
PYTHONPATH="$VERIF_REPO/src:$PWD" /opt/venv/bin/python -m vmon.main "$@"
