#!/bin/bash
# seed.sh ID [nocheck|PROP...]: confirms a planted bug in scratch copies and runs its check against it.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$id
w=/tmp/seed.$id.$$
mkdir -p "$w"; trap 'rm -rf "$w"' EXIT
for k in good bad; do
  git clone -q /repo "$w/$k"
  [ $k = bad ] && { git -C "$w/bad" apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }; }
  ( cd "$w/$k" && mkdir -p _build/tiny && for f in tiny/src/*.c; do gcc -g -w -D_GNU_SOURCE -Itiny/include -c "$f" -o "_build/tiny/$(basename "$f").o" || exit 1; done && ar rcs _build/tiny/libtiny.a _build/tiny/*.o ) || { echo "$id: $k DOES NOT BUILD"; exit 1; }
done
( cd "$w/bad" && gcc -g -w -D_GNU_SOURCE -Itest/include -Itiny/include test/src/*.c _build/tiny/libtiny.a -lm -o _build/tiny_test && timeout -k 5 60 stdbuf -o0 _build/tiny_test >_build/log 2>&1
  python3 /opt/vp/parse.py _build/log test/src/test.c >_build/lines; echo '{"passed": [], "failed": []}' >_build/o.json; python3 /opt/vp/results.py "$w/bad/_build/o.json" "lines:_build/lines" >/dev/null
  python3 -c "
import json;d=json.load(open('_build/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(d['passed'])
print('$id: tests', 'ok' if not m else 'BROKEN '+str(m))" )
( cd "$w/good" && bash "$S/demo.sh" >"$w/o1" 2>&1 ) && echo "$id: demo passes unpatched" || { echo "$id: DEMO FAILS UNPATCHED"; head -5 "$w/o1"; }
( cd "$w/bad" && bash "$S/demo.sh" >"$w/o2" 2>&1 ) && echo "$id: DEMO DOES NOT NOTICE" || echo "$id: demo notices: $(head -c 150 "$w/o2" | head -2 | tr '\n' ' ')"
[ "$1" = nocheck ] && exit 0
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $props; do
  o=$(cd "$V" && TINY_REPO="$w/bad" timeout 900 python3 run.py $p quick 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$o" | grep -q "VIOLATION property=$p"; then echo "$id $p CAUGHT" >>"$V/tools/seed_results.txt"; echo "$id: $p CAUGHT: $(echo "$o" | head -1 | cut -c1-140)"; else echo "$id $p MISSED" >>"$V/tools/seed_results.txt"; echo "$id: $p MISSED rc=$rc $(echo "$o" | tail -1 | cut -c1-100)"; fi
done
