#!/bin/bash
# usage: run.sh Cxx   (environment as /opt/vp/test.sh)
here="$(cd "$(dirname "$0")/.." && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache
export PYTHONHASHSEED=0 MPLBACKEND=Agg
cd "$here" && exec /opt/venv/bin/python -W ignore "checks/$1.py"
