#!/bin/sh
# nothing to build: checks import /repo's working tree directly
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || exit 1
test -r /opt/veriftools/tla/tla2tools.jar || exit 1
PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= /opt/venv/bin/python harness/gs.py || exit 1
mkdir -p evidence
exit 0
