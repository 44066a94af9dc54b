#!/bin/bash
# usage: t.sh test files...
export HOME=/tmp/w/home PIP_NO_INDEX=1 PYTHONHASHSEED=0 TZ=UTC PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 http_proxy=http://127.0.0.1:9 https_proxy=http://127.0.0.1:9
mkdir -p $HOME/pysatData
cd ${REPO:-/repo}
/opt/venv/bin/python -c "import pysat; pysat.params['data_dirs'] = '$HOME/pysatData'" >/dev/null
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -x --maxfail=1000 "$@" 2>&1 | tail -${TAIL:-40}
git status --short
