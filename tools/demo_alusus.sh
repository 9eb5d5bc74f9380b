#!/bin/bash
# runs demo.alusus with the built compiler; its output must be exactly expected.txt
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
out=$(ALUSUS_LIBS=$r/Sources/Srt:$r/_build/Spp LC_ALL=C.UTF-8 timeout 200 $r/_build/Core/alusus.dbg "$d/demo.alusus" 2>&1)
if [ "$out" == "$(cat "$d/expected.txt")" ]; then echo ok; exit 0; fi
echo "unexpected output:"; echo "$out"; exit 1
