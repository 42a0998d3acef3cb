#!/bin/bash
# cal.sh NAME VARIANT... : calibration summary
h=$1; shift
for v in "$@"; do echo "== $v"; /verif/scripts/try.sh $h $v 1 2>&1 | grep -v "last hist\|rc=\|^$\|user\|sys" | sort -u | cut -c1-200 | head -${N:-24}; done
