#!/bin/bash
# ./check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# Decides one property on /repo's current working tree. Exit 0 held, 1 VIOLATION, 2 error of the check.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 HYPOTHESIS_NO_PLUGINS=1 PYTHONWARNINGS=ignore
export PATH=/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONPATH PYTHONASYNCIODEBUG PYTHONOPTIMIZE
exec /opt/venv/bin/python -X faulthandler -m vh.engine "$@"
