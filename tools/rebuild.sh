#!/bin/bash
# build + test /repo with the vcheck tag out of sight
T=$(git -C /repo rev-parse -q --verify refs/tags/vcheck-pass)
[ -n "$T" ] && git -C /repo update-ref -d refs/tags/vcheck-pass
trap '[ -n "$T" ] && git -C /repo update-ref refs/tags/vcheck-pass $T' EXIT
bash /opt/vp/build.sh > /tmp/rebuild.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/rebuild.log; exit 1; }
[ "$1" = -t ] && { bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1; python3 /verif/tools/tc.py; }
