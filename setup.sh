#!/bin/bash
# Builds every check binary from /repo's current tree (checks rebuild what changed).
set -e
cd "$(dirname "$0")"
BUILD_ONLY=1 ./check.sh all
