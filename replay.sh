#!/bin/bash
# replay.sh FILE: rebuilds from /repo's working tree and replays a recorded run; exit 1 if the violation reproduces.
cd "$(dirname "$0")" || exit 2
fl=norm
grep -q '^s flavor=thr' "$1" && fl=thr
python3 tools/build.py $fl >/dev/null || exit 2
exec build/$fl/simrun replay "$1" "${@:2}"
