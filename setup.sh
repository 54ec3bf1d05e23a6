#!/bin/bash
# Build the fact extractor (offline) and warm the dependency build used by the checks.
cd "$(dirname "$0")" && ./extract.sh "$PWD/.cache/warm" >/dev/null
