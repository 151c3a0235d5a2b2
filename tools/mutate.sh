#!/bin/bash
# tools/mutate.sh WORKER SEED COUNT OUT [FILE-REGEX]: run tools/mutate.py on scratch copies (a private mount namespace)
W=$1; D=/tmp/mut/$W
mkdir -p "$D"; cp -a /repo "$D/repo"; git clone -q /verif "$D/verif"
export D
unshare -m bash -c 'mount --bind $D/repo /repo || exit 9; /opt/venv/bin/python $D/verif/tools/mutate.py "$@"' _ "$@"
/bin/rm -rf "$D"
