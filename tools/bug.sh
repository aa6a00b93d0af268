#!/bin/bash
# tools/bug.sh ID [check...] : confirm planted bug seeded/ID in a private copy of /repo (bind-mounted over /repo
# in an own mount namespace), then run the checks given (default: the property of meta.json) against it.
# NOTEST=1 skips the repository's tests; ONLYCHECK=1 skips the demonstration, too.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/bug-$id
checks=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
rm -rf "$W"; mkdir -p "$W/out" "$W/ev" "$W/demo"; cp -a /repo "$W/repo"
cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
export S W checks id
unshare -m bash -c '
mount --make-rprivate / ; mkdir -p /verif/out /verif/evidence
mount --bind $W/repo /repo; mount --bind $W/out /verif/out; mount --bind $W/ev /verif/evidence
cd /repo
if [ -z "$ONLYCHECK" ]; then
bash /opt/vp/build.sh > $W/build0.log 2>&1 || { echo "$id: build0 failed"; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; a=$?
fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$ONLYCHECK" ]; then
bash /opt/vp/build.sh > $W/build1.log 2>&1 || { echo "$id: build1 failed"; tail -5 $W/build1.log; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; b=$?
t=skipped
if [ -z "$NOTEST" ]; then flock /tmp/buglock bash /opt/vp/test.sh $W/res.json > $W/test.log 2>&1; t=$(tail -1 $W/test.log); fi
echo "$id: demo clean=$a patched=$b tests: $t"
fi
cd /verif
for c in $checks; do
  timeout 900 python3 lib/checks.py $c ${TIER:-quick} > $W/$c.log 2>&1; echo "$id: check $c rc=$? $(grep -m1 -a rejected $W/$c.log | cut -c1-230)"
done
'
mkdir -p /tmp/buglogs/$id; cp "$W"/*.log "$W"/res.json /tmp/buglogs/$id/ 2>/dev/null
rm -rf "$W"
