#!/bin/bash
# mut.sh name props file python-expr(old,new)
name=$1; props=$2; file=$3; old=$4; new=$5
rm -rf /tmp/mut/r; mkdir -p /tmp/mut/r; git -C /repo archive HEAD | tar x -C /tmp/mut/r
OLD="$old" NEW="$new" python3 - /tmp/mut/r/$file <<'P' || { echo "$name NOT APPLIED"; exit; }
import sys,os
f=sys.argv[1]; s=open(f).read(); o=os.environ['OLD']; n=os.environ['NEW']
if o not in s: sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
for p in $props; do
  r=$(cd /verif && VERIF_REPO=/tmp/mut/r timeout 600 python3 bin/check.py $p 2>&1 | grep -E "^violated|ERROR|held" | head -2 | cut -c1-200 | tr '\n' '|')
  echo "$name $p: $r"
done
