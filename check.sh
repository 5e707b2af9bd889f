#!/bin/sh
# check.sh PROPERTY
cd "$(dirname "$0")" && exec python3-vt -B check.py "$1"
