#!/bin/bash
# check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" && exec python3 check.py "$@"
