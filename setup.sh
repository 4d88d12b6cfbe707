#!/bin/bash
# Nothing is built ahead of time (every check regenerates its encoding from
# /repo); this only verifies that the installed tools are there.
set -e
for t in clang++-18 clang-18 opt-18 cbmc python3; do
    command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }
done
cbmc --version
