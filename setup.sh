#!/bin/bash
# Nothing is built: checks that everything they need is there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python -c '
import markdown_it
from mfpbt import sut
sut.load()
from mfpbt.checks import REGISTRY
print(len(REGISTRY), "checks are ready")
'
