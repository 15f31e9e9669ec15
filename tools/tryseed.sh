#!/bin/bash
# tools/tryseed.sh ID...: in a private mount namespace with a scratch copy bound over /repo:
# demo on the unchanged tree, apply, build, stable tests, demo on the changed tree.
for id in "$@"; do (
S=/verif/seeded/$id
D=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$D/repo"; mkdir "$D/reports" "$D/s"; cp "$S"/* "$D/s/"
export S D id
unshare -m bash -c '
mount --bind "$D/repo" /repo; mount --bind "$D/reports" /opt/vp/reports
cd /repo
bash "$D/s/demo.sh" > "$D/d0" 2>&1; echo "$id demo unchanged rc=$?"
git apply "$S/patch.diff" || { echo "$id APPLY FAILED"; exit; }
bash /opt/vp/build.sh > "$D/b" 2>&1; echo "$id build rc=$?"
bash "$D/s/demo.sh" > "$D/d1" 2>&1; echo "$id demo patched rc=$?"; tail -3 "$D/d1"
bash /opt/vp/test.sh "$D/o.json" > /dev/null 2>&1
python3 -c "
import json,os
o=json.load(open(\"$D/o.json\"));s=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"])
bad=sorted(s-set(o[\"passed\"]))
print(\"$id stable tests\", len(s)-len(bad), \"of\", len(s), bad[:4])"
'
rm -rf "$D"
) ; done
