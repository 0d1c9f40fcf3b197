#!/bin/bash
# quiet.sh [DIFF...] -- PROP...: runs checks on scratch copies with changes that keep the behaviour
# (quiet/*.diff); none may raise an alarm.  Without DIFF all are applied together.
diffs=(); props=()
while [ $# -gt 0 ] && [ "$1" != -- ]; do diffs+=("$1"); shift; done
shift; props=("$@")
[ ${#diffs[@]} = 0 ] && diffs=(/verif/quiet/*.diff)
[ ${#props[@]} = 0 ] && props=(C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C19)
w=$(mktemp -d /tmp/quiet.XXXXXX)
cp -a /repo "$w/repo"
git -C "$w/repo" update-index -q --refresh
for d in "${diffs[@]}"; do git -C "$w/repo" apply --3way "$d" || echo "does not apply: $d"; done
rc=0
for p in "${props[@]}"; do
  SIM_REPO="$w/repo" /verif/check.sh "$p" > "$w/out" 2>&1; r=$?
  echo "$p rc=$r $(tail -1 "$w/out")"
  [ $r = 0 ] || { rc=1; tail -5 "$w/out"; }
done
rm -rf "$w"
exit $rc
