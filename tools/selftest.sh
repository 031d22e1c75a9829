#!/bin/bash
# Development aid: an execution is a function of seed and code. Runs the first plans of each check twice, with other worker
# counts and another hash seed, and compares the digests of the event logs.   usage: selftest.sh [IDs]
cd "$(dirname "$0")/.." || exit 3
d=$(mktemp -d /tmp/selftest.XXXXXX); bad=0
for c in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}; do
  cp evidence/$c.json $d/ev.json 2>/dev/null
  ./check.sh $c --runs 48 --jobs 8 --digests | grep '^D ' > $d/a
  PYTHONHASHSEED=7 ./check.sh $c --runs 48 --jobs 3 --digests | grep '^D ' > $d/b
  if cmp -s $d/a $d/b && [ -s $d/a ]; then echo "$c same $(wc -l < $d/a)"; else echo "$c DIFFERENT $(diff $d/a $d/b | grep -c '^<')"; bad=1; fi
  cp $d/ev.json evidence/$c.json 2>/dev/null
done
rm -rf "$d"; exit $bad
