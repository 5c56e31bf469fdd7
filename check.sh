#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   (see MANIFEST.json)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 PYTHONPATH="$here" PYTHONIOENCODING=utf-8
exec /opt/venv/bin/python -m kmon check "$1" "${2:-${VERIF_TIER:-quick}}"
