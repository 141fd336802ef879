#!/bin/bash
# demoall.sh <seed>...: build + demo on a clean and on a patched scratch copy
for s in "$@"; do
  T=$(mktemp -d); git clone -q /repo $T/r; ( cd $T/r; bash /verif/seeded/$s/demo.sh >/tmp/do.log 2>&1; a=$?; git apply /verif/seeded/$s/patch.diff || echo NOAPPLY; bash /verif/seeded/$s/demo.sh >/tmp/do2.log 2>&1; b=$?; echo "$s clean $a patched $b: $(tail -1 /tmp/do2.log)"; [ $a = 0 ] || tail -5 /tmp/do.log )
  find $T -delete
done
