#!/bin/bash
# seed.sh ID: confirms /verif/seeded/ID in a scratch copy of /repo.
id=$1; s=/verif/seeded/$id; w=/tmp/sw/$id
rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; cp -a "$s" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
cd "$w/repo" || exit 2
. /opt/vp/env.sh
bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... > "$w/build.log" 2>&1 || { echo "$id: does not build"; tail -5 "$w/build.log"; exit 2; }
bash "$w/demo/demo.sh" > "$w/bug.log" 2>&1; b=$?
go test -json -count=1 ./... > "$w/test.json" 2>/dev/null
python3 - "$w/test.json" <<'P' > "$w/tests.log"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=None
for k in ('stable','tests','passed','stable_tests'):
    if k in b: st=b[k]; break
st=set(st if isinstance(st,list) else st.keys()) if st is not None else set()
ok=set(); bad=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d['Action'] in ('pass','fail'):
        n=[d['Package']+'/'+d['Test'],d['Package']+'.'+d['Test'],d['Package']+' '+d['Test'],d['Package']+'::'+d['Test'],d['Test']]
        (ok if d['Action']=='pass' else bad).add(n[0])
print('missing', sorted(st-ok))
P
echo "$id: clean=$a bug=$b tests: $(cat $w/tests.log)"
[ $a = 0 ] && [ $b != 0 ] && ok=1
if [ -n "$ok" ] && [ -z "$NOCHECK" ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd /verif && ./bin/vsymgo -verif /verif -repo "$w/repo" -prop "$p" > "$w/check.log" 2>&1; echo "$id: check $p exit=$? $(grep -a -m2 -A1 '^VIOLATION' "$w/check.log" | tr '\n' ' ' | cut -c1-250)"
fi
rm -rf "/tmp/sw/$id/repo"
