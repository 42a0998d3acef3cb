#!/bin/bash
# try.sh NAME VARIANT REF(0/1) [TIER] [DEADLINE] - run a harness on 8 shards
cd /verif
python3 - <<P || exit
import sys;sys.path.insert(0,'.')
from vlib import build as b
b.harness('$1','$2',with_ref=bool($3),flags='$FLAGS'.split())
P
o=/tmp/o.$1.$2; rm -rf $o; mkdir $o
time (for s in 0 1 2 3 4 5 6 7; do build/h-$1-$2/$1 $o $s ${4:-quick} 1 ${5:-600} 2>$o/err.$s || echo rc=$? & done; wait)
cat $o/out.* | sort | awk '/STAT/{a[$2]+=$3} /SAMPLE/&&n++<6{print substr($0,1,300)} /VIOL/&&m++<8{print substr($0,1,400)} END{for(k in a)print k,a[k]}'
grep -hm2 -A12 "runtime error\|ERROR:\|WARNING: Mem" $o/err.* | cut -c1-160 | head -${E:-24}
