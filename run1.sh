#!/bin/bash
# usage: run1.sh harness variant unit [cases] [seed] : developer helper
cd "$(dirname "$0")"
EXE=$(python3 -c "import check,sys;print(check.exe_of(*sys.argv[1:3]))" "$1" "$2" 2>/tmp/build.err) || { grep -m4 "error" /tmp/build.err | cut -c1-250; exit 9; }
$EXE --unit $3 --seed ${5:-1} --cases ${4:-2000} --out /tmp/r.$3.json
python3 - <<P
import json
d=json.load(open('/tmp/r.$3.json'))
print({k:d[k] for k in('unit','evaluations','nontrivial','distinct','wall_s','labels')})
f=d['failure']
if f:
  print('FAIL kind',f['kind'],'conf',f['confirmed'],'/',f['replays'],'mode',f['mode']); print(f['notes'][-1500:]); print(f['message'][:1800]); print(f['choices'][:60])
P
