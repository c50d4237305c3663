#!/bin/bash
# run.sh PROPERTY [quick|thorough]: one check, see tools/check.py
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
