#!/bin/bash
# usage: run.sh <property id> [--replay file] [--tier quick|thorough]
# Runs the monitors of one property against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
scratch="$(mktemp -d /tmp/vmon.XXXXXX)"
trap 'find "$scratch" -mindepth 1 -delete 2>/dev/null; rmdir "$scratch" 2>/dev/null' EXIT
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" VMON_SCRATCH="$scratch"
export PYTHONPATH="$here" PYTHONIOENCODING=utf-8 PYTHONUTF8=1
cd "$scratch" || exit 3
"$py" -m vmon.core "$@" </dev/null
exit $?
