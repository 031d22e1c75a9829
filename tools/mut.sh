#!/bin/bash
# Development aid: run a check against a copy of /repo with a patch applied (or reversed).
# usage: mut.sh [-R] PATCH CHECK [args...]    (PATCH: file or a commit of /repo)
R=""; [ "$1" = "-R" ] && { R=-R; shift; }
P=$1; shift
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C /repo archive HEAD | tar x -C "$D"
for f in $(cd /repo && git ls-files --others --ignored --exclude-standard src | grep -v pycache); do cp -a /repo/$f $D/$f; done
if [ -f "$P" ]; then p=$(realpath "$P"); else git -C /repo show "$P" > $D/.p; p=$D/.p; fi
(cd $D && patch -p1 -s $R --no-backup-if-mismatch < $p) || echo "PATCH FAILED"
cd /verif
VERIF_REPO=$D ./check.sh "$@"
