#!/bin/bash
# trybug.sh ID CHECK...: run checks against /repo with the planted change, then undo it
S=/verif/seeded/$1; shift
git -C /repo apply $S/patch.diff || exit 1
for c in "$@"; do
  echo "== $c"; (cd /verif; VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} python3 checks/$c.py > /tmp/try.$c 2>&1; echo "exit $?"); grep -E 'evaluations=|violation:|VIOLATION|WARNING|error' /tmp/try.$c | cut -c1-300 | head -8
done
git -C /repo checkout -- .
