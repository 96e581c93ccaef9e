#!/bin/bash
# Same seeds, different worker counts and hash seeds: event logs and outcomes must be identical.
# usage: tools/determinism.sh RUNS SEED...
cd "$(dirname "$0")/.."
runs=$1; shift
d=$(mktemp -d); bad=0
for s in "$@"; do for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
  VERIF_SEED=$s PYTHONHASHSEED=0 python3 check.py $p --runs $runs --workers 8 --digests $d/a >/dev/null 2>&1 || { echo "$p seed $s: rc $?"; bad=1; }
  VERIF_SEED=$s PYTHONHASHSEED=77 python3 check.py $p --runs $runs --workers 3 --digests $d/b >/dev/null 2>&1
  VERIF_SEED=$s PYTHONHASHSEED=random python3 check.py $p --runs $runs --workers 13 --digests $d/c >/dev/null 2>&1
  if cmp -s $d/a $d/b && cmp -s $d/a $d/c; then echo "$p seed $s: $(wc -l <$d/a) cases identical three times"; else echo "$p seed $s: DIFFERENT"; cp $d/a /tmp/det.a; cp $d/b /tmp/det.b; cp $d/c /tmp/det.c; bad=1; fi
done; done
rm -rf "$d"; exit $bad
