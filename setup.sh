#!/bin/bash
# Nothing to build: checks that the interpreter, the libraries and the sources load.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="/repo:$here:$here/shim" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR="$scratch" HOME="$scratch"
cd "$scratch" && /opt/venv/bin/python -W ignore -c '
import sys
from lib import pbt
pbt.setup_runtime()
import hypothesis, numpy, scipy, sklearn, networkx, shapely
import vartools, dynamic_obstacle_avoidance, nonlinear_avoidance.vector_rotation
print("ready: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
'
