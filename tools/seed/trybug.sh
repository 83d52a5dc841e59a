#!/bin/bash
# trybug.sh BUG [CHECK...]: runs the checks (default: its property's) with the planted bug, in a mount
# namespace where /repo is a patched copy and /verif/.build and /verif/evidence are scratch folders
b=$1; shift
d=/verif/seeded/$b
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -eq 0 ] && set -- $prop
S=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /repo $S/repo; mkdir -p $S/build $S/evidence
git -C $S/repo checkout -q -- . && git -C $S/repo apply $d/patch.diff || exit 1
unshare -rm bash -c '
S=$1; b=$2; shift 2
mount --bind $S/repo /repo; mkdir -p /verif/.build /verif/evidence; mount --bind $S/build /verif/.build; mount --bind $S/evidence /verif/evidence
for c in "$@"; do
  out=$(cd /verif && timeout 900 ./run.sh $c 2>&1); rc=$?
  echo "$b $c rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc -ne 1 ] && [ -n "$V" ] && echo "$out" | tail -5
done' x $S $b "$@"
