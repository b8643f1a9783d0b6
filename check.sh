#!/bin/sh
# check.sh CNN [quick|thorough]: the check of one property; check.sh --replay FILE: a reported violation again
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
