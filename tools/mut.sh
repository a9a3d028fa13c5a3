#!/bin/bash
# mut.sh PATCH id... : applies a patch to /repo, runs the checks, undoes it.
p=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$p" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
  s=$(date +%s)
  out=$(/verif/check.sh $i 2>&1); rc=$?
  echo "== $(basename $p) $i rc=$rc $(( $(date +%s) - s ))s"
  echo "$out" | grep -v "cases," | tail -${MUTLINES:-4} | cut -c1-600
done
