#!/bin/bash
# trial.sh [-R] PATCH PROP...: applies PATCH to /repo, runs the checks, undoes it. Development aid.
R=; [ "$1" = -R ] && { R=-R; shift; }
P=$(realpath "$1"); shift
git -C /repo apply $R "$P" || { echo "does not apply"; exit 3; }
for p in "$@"; do
  out=$(VP_EVIDENCE=/tmp/trial-evidence VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/check.sh $p 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -v '^VIOLATION' | tail -4 | tr '\n' ' ' | cut -c1-${W:-300})"
done
git -C /repo checkout -q -- .
