#!/bin/bash
# Exit 0 if the property holds in this case, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="$PWD/src:$here"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
