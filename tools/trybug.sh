#!/bin/bash
# usage: tools/trybug.sh <seeded id> [--tests] [check ids...]
# Applies the planted bug to a scratch copy of /repo, runs its demo on both trees, optionally the stable tests, and the checks.
id=$1; shift
tests=0; [ "$1" = --tests ] && { tests=1; shift; }
d=/verif/seeded/$id
w=/tmp/bug_$id
rm -rf "$w"; git clone -q /repo "$w" || exit 1
git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/bug_$id.clean.log 2>&1); c=$?
(cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/bug_$id.demo.log 2>&1); p=$?
echo "$id: demo clean=$c patched=$p  ($(tail -n 1 /tmp/bug_$id.demo.log | cut -c1-160))"
if [ $tests = 1 ]; then
  mkdir -p "$w.rep"
  sed "s#/opt/vp/reports#$w.rep#g; s#/repo#$w#g" /opt/vp/test.sh > "$w.test.sh"
  bash "$w.test.sh" "$w.out.json" > "$w.test.log" 2>&1
  python3 - "$w.out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def lst(d,*ks):
    for k in ks:
        if k in d: return set(d[k])
st=lst(b,'stable','stable_pass','passed','pass'); ok=lst(o,'passed','pass')
print(sys.argv[2], 'tests not passing:', sorted(st-ok)[:6], len(st-ok), 'of', len(st))
P
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for k in ${@:-$prop}; do
  VERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh $k quick > /tmp/bug_$id.$k.log 2>&1; r=$?
  echo "$id: check $k exit=$r $(grep -c '^VIOLATION' /tmp/bug_$id.$k.log) violation lines"
done
rm -rf "$w" "$w.rep" "$w.test.sh" "$w.test.log" "$w.out.json"
