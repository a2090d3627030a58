#!/bin/bash
# seedtest.sh ID [nocheck|notest]: confirms a planted bug in a private copy of /repo (bound over /repo in a mount namespace) and runs its property's check against it.
id=$1; mode=$2; V=/verif; w=/tmp/sd/$id.$$; mkdir -p /tmp/sd; cp -a /repo "$w"
log=/tmp/sd/$id.log
unshare -Urm bash -c "
mount --bind $w /repo; cd /repo; V=$V; id=$id; mode=$mode
"'
d=/tmp/sd/demo.$$; cp -r $V/seeded/$id $d; rm -f $d/patch.diff $d/meta.json
(cd /repo && bash $d/demo.sh) > /tmp/sd/$id.demo0 2>&1; a=$?
git apply $V/seeded/$id/patch.diff || echo PATCH-FAILS
if [ "$mode" = notest ]; then bash /opt/vp/build.sh > /tmp/sd/$id.build 2>&1 || echo BUILD-FAILS; m=skipped; else bash /opt/vp/test.sh /tmp/sd/$id.json > /tmp/sd/$id.build 2>&1; m=$(python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=set(json.load(open("/tmp/sd/$id.json"))["passed"]); print("missing:",sorted(b-o))
P
); fi
(cd /repo && bash $d/demo.sh) > /tmp/sd/$id.demo1 2>&1; b=$?
rm -rf $d
p=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$id/meta.json\"))[\"property\"])")
r=-; if [ "$mode" != nocheck ]; then (cd $V && python3 check.py $p --tier quick) > /tmp/sd/$id.check 2>&1; r="$? $(grep -c ^VIOLATION /tmp/sd/$id.check)"; fi
echo "$id $p demo-clean=$a demo-patched=$b tests[$m] check rc,violations: $r"
' 2>&1 | tee "$log"
rm -rf "$w"
