#!/bin/bash
# tools/mut.sh PATCH|-R:COMMIT  PROP...: runs checks against a scratch copy of /repo with a patch (or a reverted commit)
set -e
D=/tmp/mut.$$; mkdir -p $D; cp -a /repo $D/repo
case "$1" in -R:*) git -C $D/repo show ${1#-R:} > $D/p.diff; git -C $D/repo apply -R $D/p.diff;; *) git -C $D/repo apply "$1";; esac
shift
for p in "$@"; do PBT_REPO=$D/repo timeout 900 python3 /verif/pbt/run.py $p 2>&1 | tail -${TAIL:-3}; done
rm -rf "${D:?}"
