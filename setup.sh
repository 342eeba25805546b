#!/bin/bash
# Nothing to compile: the checks import cis from /repo's working tree.  Verify that the tools are where they should be.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B - <<'P'
import numpy, iris, pandas, scipy, netCDF4, matplotlib, shapely, cf_units
print('tools present')
P
mkdir -p evidence
