#!/bin/bash
# nothing to build: checks that the tools the harness needs are there
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from pbt import core
import hypothesis, networkx, pandas, scipy, matplotlib
print('ok', hypothesis.__version__)"
