#!/bin/bash
# tools/fixcases.sh: for each listed fix, revert it in a scratch copy, run its check, and report whether it is detected;
# with CASES=1 the minimal failing input is kept as regression case fix-COMMIT
cd "$(dirname "$0")/.."
python3 -c "
import json
for c, p, w in json.load(open('tools/fixes.json')): print(c, p)" | while read c p; do
  [ -n "$ONLY" ] && [[ " $ONLY " != *" $c "* ]] && continue
  D=/tmp/fixcase.$$; mkdir -p $D; cp -a /repo $D/repo; chmod -R a+rX $D
  if git -C $D/repo -c user.name=x -c user.email=x@x revert -n $c >/dev/null 2>&1; then
    out=$(PBT_REPO=$D/repo timeout 900 python3 pbt/run.py $p 2>&1 | tail -1)
    echo "$c $p $out"
    r=$(echo "$out" | sed -n 's/.*replay=//p')
    if [ -n "$CASES" ] && [ -n "$r" ]; then python3 tools/addcase.py fix-$c "$r"; fi
  else echo "$c $p does not revert"; fi
  rm -rf "${D:?}"
done
