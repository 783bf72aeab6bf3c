#!/bin/bash
# decodes the installed dictionary into cache/ (checks do it themselves when the cache is missing)
cd "$(dirname "$0")/.." || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence cache
exec /opt/venv-slow/bin/python mc/setup_cache.py
