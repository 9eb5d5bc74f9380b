#!/bin/bash
# seedtest.sh [-t] <id>...: for each planted bug: demo on the clean tree, then with the patch: build, demo, (with -t: tests), check
T=0; if [ "$1" == -t ]; then T=1; shift; fi
cd /repo
if [ -n "$(git status --porcelain)" ]; then echo "/repo not clean"; exit 1; fi
# the repository's build reads its version from the nearest tag: hide the tag vcheck sets
TAG=$(git rev-parse -q --verify refs/tags/vcheck-pass); [ -n "$TAG" ] && git update-ref -d refs/tags/vcheck-pass
trap 'git -C /repo checkout -q -- .; [ -n "$TAG" ] && { git -C /repo rev-parse -q --verify refs/tags/vcheck-pass >/dev/null || git -C /repo update-ref refs/tags/vcheck-pass $TAG; }' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  bash $s/demo.sh >/tmp/seed_demo0.txt 2>&1; r0=$?
  if ! git apply $s/patch.diff; then echo "$id: patch does not apply"; continue; fi
  if ! bash /opt/vp/build.sh >/tmp/seed_build.txt 2>&1; then echo "$id: does not build"; tail -20 /tmp/seed_build.txt; git checkout -q -- .; continue; fi
  bash $s/demo.sh >/tmp/seed_demo1.txt 2>&1; r1=$?
  tt=skipped
  if [ $T == 1 ]; then bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1; tt=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_tests.json'))
m=sorted(set(b['stable'])-set(t['passed']));print('pass' if not m else m[:4])"); fi
  c=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt lib/check.py $prop 2>&1 | grep -E "VIOLATION|^ok|Error" | head -3)
  git checkout -q -- .
  echo "$id [$prop] demo clean=$r0 patched=$r1 tests=$tt check: $c"
done
bash /opt/vp/build.sh >/dev/null 2>&1
