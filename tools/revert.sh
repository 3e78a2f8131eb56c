#!/bin/bash
# revert.sh COMMIT PROP...: runs checks against a scratch copy in which one fix is undone.
c=$1; shift
w=/tmp/revert.$c.$$
git clone -q /repo $w; trap 'rm -rf "$w"' EXIT
if ! git -C $w -c user.name=x -c user.email=x@x revert -n $c >/dev/null 2>&1; then echo "$c: does not revert cleanly"; exit 0; fi
for p in "$@"; do
  o=$(cd /verif && TINY_REPO=$w timeout 900 python3 run.py $p quick 2>&1)
  if echo "$o" | grep -q "VIOLATION property=$p"; then echo "$c $p CAUGHT $(echo "$o" | head -1 | cut -c1-120)"; else echo "$c $p MISSED $(echo "$o" | tail -1 | cut -c1-100)"; fi
done
