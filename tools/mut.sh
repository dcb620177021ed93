#!/bin/bash
# tools/mut.sh FILE 'OLD' 'NEW' CHECK...   run checks against a scratch copy of /repo with OLD replaced by NEW
f="$1"; old="$2"; new="$3"; shift 3
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/. "$d"/
python3 - "$d/$f" "$old" "$new" <<'PY' || { rm -rf "$d"; exit 9; }
import sys
p,o,n=sys.argv[1:4]
s=open(p).read()
c=s.count(o)
if c==0: sys.exit("pattern not found")
k=int(__import__('os').environ.get('NTH','1'))
parts=s.split(o)
s=o.join(parts[:k])+n+o.join(parts[k:])
open(p,'w').write(s)
PY
for c in "$@"; do
  VERIF_REPO="$d" "$(dirname "$0")/../check" "$c" >"$d.out" 2>&1; rc=$?
  echo "$c rc=$rc $(grep -m1 '^sub=' "$d.out" | cut -c1-300)"
  [ $rc = 2 ] && tail -5 "$d.out"
done
rm -rf "$d" "$d.out"
