#!/bin/bash
# Builds every variant once, so that checks in the same tree start at once.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence build
exec python3 lib/build.py plain asan tsan scan
