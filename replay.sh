#!/bin/bash
# replay.sh FILE: runs the failing input recorded in FILE against /repo's current source
cd "$(dirname "$0")" && exec python3-vt tools/replay.py "$@"
