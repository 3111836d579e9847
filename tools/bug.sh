#!/bin/bash
# tools/bug.sh ID [CHECK...]: confirms planted bug seeded/ID in a scratch copy (applies, builds, stable tests pass, demo fails with it and
# passes without it), then runs the checks (default: the property in meta.json) against it. Uses a user namespace to bind the copy to /repo.
id=$1; shift; D=/verif/seeded/$id; S=$(mktemp -d /tmp/bug_XXXXXX)
cp -a /repo $S/r; mkdir $S/d; cp $D/* $S/d; rm -f $S/d/patch.diff $S/d/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# = 0 ] && set -- $P
ns() { unshare -Urm bash -c "mount --bind $S/r /repo && cd /repo && $1"; }
ns "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $S/d/demo.sh" >$S/o 2>&1 && echo "demo clean: ok" || { echo "demo clean: BAD"; cat $S/o; }
git -C $S/r apply $D/patch.diff || echo "APPLY FAILED"
ns "bash /opt/vp/build.sh >$S/b 2>&1" || { echo "BUILD FAILED"; tail -5 $S/b; }
ns "timeout 300 bash $S/d/demo.sh" >$S/o 2>&1 && echo "demo patched: PASSES (bad)" || { echo "demo patched: fails (ok)"; tail -3 $S/o; }
if [ -z "$NOTEST" ]; then
ns "bash /opt/vp/test.sh $S/t.json" >/dev/null 2>&1
python3 -c "
import json;t=json.load(open('$S/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));l=set(b['stable'])-set(t['passed']);print('stable tests:','ok' if not l else 'LOST '+str(sorted(l)[:9]))"
fi
for c in "$@"; do
 cmd=$(python3 -c "
import json;m=json.load(open('/verif/MANIFEST.json'))
for c in m['checks']:
  if c.get('property_id',c.get('property',c.get('id')))=='$c': print(c.get('quick_cmd') or c.get('quick') or c)")
 (cd /verif && VERIF_EVIDENCE=$S/ev VERIF_REPO=$S/r VERIF_TIER=quick timeout 900 bash -c "$cmd" >$S/c 2>&1); rc=$?
 echo "check $c: exit $rc $(grep -c VIOLATION $S/c) violation lines"; grep -m2 -B1 VIOLATION $S/c | cut -c1-220; [ $rc -gt 1 ] && tail -5 $S/c
done
rm -rf "$S"
