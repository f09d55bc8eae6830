#!/bin/bash
# seedrun.sh ID...: run the check of the bug's property (or CHECKS="..") against the bug, in a scratch copy of /repo.
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedr-XXXXXX)
  cp -a /repo $W/repo; (cd $W/repo && git checkout -q -- . && git apply $S/patch.diff)
  P=${CHECKS:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  for p in $P; do
    s=$(date +%s)
    (cd /verif && VERIF_EVIDENCE=$W VERIF_REPO=$W/repo python3 check.py $p --tier ${TIER:-quick} >$W/o 2>&1); r=$?
    echo "$id: check $p exit=$r $(( $(date +%s)-s ))s $(grep -E '^violated|ERROR' $W/o | cut -c1-300 | head -2)"
  done
  rm -rf "$W"
done
