#!/bin/bash
# nothing to compile: e2cnn is pure Python and is imported from /repo's working tree by every check
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p evidence replay
exec /opt/venv/bin/python -c "from vp import core; core.setup_env(); import vp.ref, vp.kern; print('setup ok')"
