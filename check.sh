#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
if compgen -G "harness/$1/*.py" >/dev/null; then
  export PYTHONDONTWRITEBYTECODE=1
  exec /opt/veriftools/pyvenv/bin/python3 pyengine/vfpy.py -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
fi
[ -x bin/vfcheck ] || ./build.sh || exit 3
exec ./bin/vfcheck -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
