#!/bin/sh
# Nothing to build ahead: every check compiles what it needs from /repo's working tree.
set -e
java -version 2>/dev/null || true
clang++ --version >/dev/null
mkdir -p "$(dirname "$0")/_build"
