#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" && . ./env.sh && exec python3 run/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
