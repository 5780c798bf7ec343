#!/bin/bash
# builds the driver once (every check builds it again from /repo's tree) and parses the specifications
cd "$(dirname "$0")" && . ./env.sh && exec python3 run/check.py setup
