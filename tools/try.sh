#!/bin/bash
# Development aid: apply a planted bug to a scratch copy of /repo (seen as /repo in a private mount namespace only),
# run build, stable tests, the demonstration with and without it, and the given checks.
#   tools/try.sh SEEDED_DIR [-n] CHECK...      (-n: skip the test suite)
set -u
D=$(realpath "$1"); shift
SKIP=0; if [ "${1:-}" = "-n" ]; then SKIP=1; shift; fi
S=$(mktemp -d /tmp/try.XXXXXX)
trap '/bin/rm -rf "$S"' EXIT
cp -a /repo "$S/repo"
git -C "$S/repo" checkout -q -- . 
export S D SKIP
unshare -m bash -c '
mount --bind $S/repo /repo || exit 9
mkdir $S/demo && cp $D/* $S/demo/ && rm -f $S/demo/*.diff $S/demo/meta.json
cd /repo
(timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1); echo "demo clean: $?"
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 8; }
(timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1); echo "demo patched: $?"; tail -2 $S/d1.log | cut -c1-300
bash /opt/vp/build.sh >$S/b.log 2>&1 || { echo BUILD FAILED; tail -3 $S/b.log; }
if [ $SKIP = 0 ]; then bash /opt/vp/test.sh $S/o.json 2>&1 | tail -1; fi
cp -a /verif $S/verif; cd $S/verif
for c in "$@"; do VERIF_SEED=1 timeout 900 python3 run.py $c --tier quick >$S/c.log 2>&1; echo "check $c: exit $? violations $(grep -c ^VIOLATION $S/c.log)"; grep -v "^VIOL" $S/c.log | head -4 | cut -c1-350; done
' _ "$@"
