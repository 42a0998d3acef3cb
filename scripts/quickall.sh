#!/bin/bash
# Quick tier of every check on /repo; reports alarms and any phase skipped
# (a note on the unchanged tree is a defect of the machinery).
cd "$(dirname "$0")/.."
bad=0
for p in $(python3 -c 'import json;print(*[json.loads(l)["id"] for l in open("properties.jsonl")])'); do
  out=$(timeout 900 python3 run.py $p 2>&1); rc=$?
  echo "$rc $(head -1 <<<"$out")"
  [ $rc != 0 ] && bad=1
  grep -q '^note:' <<<"$out" && { bad=1; grep '^note:' <<<"$out" | cut -c1-200; }
done
exit $bad
