#!/bin/bash
# tools/seedcheck.sh ID [notest]: try one planted bug in /repo (applied and undone): build, demo without/with, tests, own property's check
id=$1; S=/verif/seeded/$id; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh > /tmp/sd.$id.clean 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/sd.$id.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/sd.$id.build; exit 1; }
bash $S/demo.sh > /tmp/sd.$id.bug 2>&1; b=$?
if [ "$2" != notest ]; then t=$(bash /opt/vp/test.sh /tmp/sd.$id.json 2>&1 | tail -1); fi
r=$(cd /verif && python3 check.py $prop 2>&1 | grep -v "^KNOWN" | tail -4 | cut -c1-300)
undo; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id [$prop] demo clean=$c bug=$b; tests: $t"; echo "$r" | sed 's/^/    /'
