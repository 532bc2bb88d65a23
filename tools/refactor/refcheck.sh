#!/bin/bash
# tools/refactor/refcheck.sh SECONDS PROCS [NAME...]  runs every check's explorer on each rewrite; any line with VIOL is a false alarm (or a rewrite that is none)
V=$(cd $(dirname $0)/../.. && pwd); S=$1; P=$2; shift 2
names=${*:-$(python3 $V/tools/refactor/refactor.py)}
for r in $names; do
  D=/tmp/refac/$r; rm -rf "/tmp/refac/$r"; mkdir -p $D/b
  python3 $V/tools/refactor/refactor.py $r $D > /dev/null || { echo "CANNOT $r"; continue; }
  ls $V/build | grep '^rt-' | while read x; do ln -s $V/build/$x $D/b/$x; done
  export SIM_REPO=$D SIM_BUILD=$D/b
  E=$(python3 $V/tools/build.py c c14 cnt pie14 hwloc hwloc14 queens mmap 2>$D/err) || { echo "NOBUILD $r"; tail -3 $D/err; continue; }
  job() { r=$1; v=$2; p=$3; e=$4; S=$5
    $e explore --prop $p --seed 7 --time $S --viol /tmp/refac/$r/$p.$v.viol > /tmp/refac/$r/$p.$v.json 2>/dev/null
    python3 - $r $v $p <<'PY'
import json,sys
r,v,p=sys.argv[1:]
try: d=json.load(open('/tmp/refac/%s/%s.%s.json'%(r,p,v)))
except Exception as e: print('NORESULT',r,v,p); sys.exit()
if d['violations'] or d['errors']*20>d['runs'] or not d['runs']: print('VIOL',r,v,p,d['runs'],d['class'],d['errors'],d['first_error'][:150])
PY
  }
  export -f job
  { for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C24 C25; do for v in c c14; do echo $v $p; done; done; echo cnt C19; echo pie14 C19; echo hwloc C23; echo hwloc14 C23; echo queens C21; echo mmap C12; echo mmap C16; } | while read v p; do echo $r $v $p $(echo "$E" | awk -v v=$v '$1==v{print $2}') $S; done | xargs -P $P -L 1 bash -c 'job "$@"' _
  echo "DONE $r"; rm -f /tmp/refac/$r/*.json
done
