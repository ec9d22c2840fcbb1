#!/bin/sh
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python bmv/run.py "$@"
