#!/bin/sh
# Development aid: mutq.sh FILE OLD NEW CHECK [args]: run a check against a scratch copy of /repo's src with one text replaced
d=$(mktemp -d /tmp/mutq.XXXXXX); mkdir -p $d/src; B=${BASE:-/repo}; cp -a $B/src/. $d/src/; cp -a $B/scripts $d/
f=$1; o=$2; n=$3; shift 3
python3 - "$d/src/hera_pspec/$f" "$o" "$n" <<'P' || { rm -rf "$d"; exit 9; }
import sys
p,o,n=sys.argv[1:]
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
t=open(p).read()
if t.count(o)<1: sys.exit("not found: %r"%o)
open(p,'w').write(t.replace(o,n,1))
P
cp evidence/$1.json $d/ev.json 2>/dev/null
VERIF_REPO=$d ./check.sh "$@" --no-shrink 2>&1 | cut -c1-400 | grep -v "^ *File\|^ *\^" | tail -8
cp $d/ev.json evidence/$1.json 2>/dev/null
rm -rf "$d"
