#!/bin/bash
# bug.sh ID [test|demo|check]...: tries a planted bug in a scratch copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
what=${*:-demo check test}
d=$(mktemp -d /tmp/bug_XXXXXX); trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; cd "$d/repo"
. /opt/vp/env.sh
export PYTHONPATH="$d/repo/src:$d/repo/native/python/src:$PYTHONPATH"
cp -a "$here/seeded/$id" "$d/seed"; rm -f "$d/seed/patch.diff" "$d/seed/meta.json"
prop=$($PY -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
case " $what " in *" demo "*)
  bash "$d/seed/demo.sh" >"$d/o" 2>&1; r=$?; [ $r = 0 ] && echo "$id: clean demo OK" || { echo "$id: CLEAN DEMO FAILS $r"; tail -5 "$d/o"; };;
esac
git apply "$here/seeded/$id/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
for w in $what; do case $w in
demo) bash "$d/seed/demo.sh" >"$d/o" 2>&1; r=$?; [ $r != 0 ] && echo "$id: demo detects ($r): $(tail -1 "$d/o")" || echo "$id: DEMO DOES NOT DETECT";;
check) p=$prop; [ -n "$CHECK" ] && p=$CHECK
  ( cd "$here"; FS2_REPO="$d/repo" FS2V_NO_EVIDENCE=1 FS2V_REPLAYS="$d" VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash run.sh $p quick >"$d/c" 2>&1; r=$?
    [ $r = 1 ] && grep -q "^VIOLATION property=$p " "$d/c" && echo "$id: CAUGHT by $p: $(grep -v '^ *case' "$d/c" | grep "\] .*: " | grep -v ' cases, ' | head -1 | cut -c1-300)" || { echo "$id: MISSED by $p (exit $r)"; tail -3 "$d/c"; } );;
test) sed "s#cd /repo#cd $d/repo#; s#cmake -P .*#:#; s#^rm -f native.*#:#; s#\. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH=$d/repo/src:$d/repo/native/python/src:\$PYTHONPATH#" /opt/vp/test.sh >"$d/t.sh"
  bash "$d/t.sh" "$d/t.json" >"$d/to" 2>&1
  $PY - "$d/t.json" "$id" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if isinstance(json.load(open('/opt/vp/BASELINE.json')),dict) and 'stable' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json')).get('passed',[]))
p=set(json.load(open(sys.argv[1]))['passed'])
m=b-p
print(f"{sys.argv[2]}: tests {len(b&p)}/{len(b)}", "OK" if not m else "FAILED "+str(sorted(m)[:4]))
P
;; esac; done
