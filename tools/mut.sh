#!/bin/bash
# mut.sh FILE SED-EXPR CHECK-ARGS...: run a check with one edit of /repo's
# source, in a private mount namespace on a copy; /repo is not touched
F=$1; X=$2; shift 2
C=$(mktemp -d /tmp/mut.XXXXXX)
cp -a ${SRC:-/repo}/. $C/
sed -i "$X" $C/src/$F
diff ${SRC:-/repo}/src/$F $C/src/$F | head -6
unshare -Urm bash -c "mount --bind $C /repo; cd /verif; python3-vt engine/check.py $* 2>&1 | tail -5"
rm -rf $C
