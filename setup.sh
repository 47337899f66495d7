#!/bin/bash
# Nothing to prepare: every check compiles what it needs from /repo's working tree.
command -v clang++ >/dev/null || { echo "clang++ missing"; exit 1; }
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/replays"
