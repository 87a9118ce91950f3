#!/bin/bash
# replay.sh FILE: runs a replay file again on /repo's working tree (exit 1: it still fails).
v=rotation
grep -q '"property": "C11R"' "$1" && v=random
bash /verif/build.sh $v || exit 2
exec /verif/harness/target/$v/release/ovharness replay "$1"
