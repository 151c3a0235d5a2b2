#!/bin/bash
# tools/tryall.sh ID...  : tools/try.sh on each planted bug with its own property's check, 3 at a time; logs in /tmp/tryall
mkdir -p /tmp/tryall
printf '%s\n' "$@" | xargs -P ${JOBS:-3} -I{} bash -c 'd=/verif/seeded/{}; c=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])"); bash /verif/tools/try.sh $d $TRYOPT $c > /tmp/tryall/{}.log 2>&1'
for i in "$@"; do echo "== $i"; cat /tmp/tryall/$i.log; done
