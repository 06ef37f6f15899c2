#!/bin/bash
# nothing to build: checks import /repo's current tree directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B -c "import numpy, scipy, matplotlib, tqdm; print('ok')"
