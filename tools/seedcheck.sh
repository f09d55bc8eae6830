#!/bin/bash
# seedcheck.sh ID...: confirm in scratch copies that a planted bug builds, passes the tests, and that its demo tells.
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo $W/repo; cp -r $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
  . /opt/vp/env.sh >/dev/null 2>&1
  cd $W/repo && git checkout -q -- .
  bash $W/demo/demo.sh >$W/out0 2>&1; a=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf $W; continue; }
  go build ./...; b=$?
  go test -json -vet=off -count=1 $(go list -e ./... | grep -v pgmeta$) >$W/test 2>&1
  python3 - $W/test >$W/missing <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: j=json.loads(l)
    except ValueError: continue
    if j.get("Action")=="pass" and j.get("Test"): ok.add(j["Package"]+"/"+j["Test"])
miss=[x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
print(miss)
sys.exit(bool(miss))
P
  t=$?
  bash $W/demo/demo.sh >$W/out1 2>&1; c=$?
  ok=BAD; [ $a = 0 ] && [ $c != 0 ] && [ $t = 0 ] && ok=ok
  echo "$id: $ok demo-clean=$a build=$b tests=$t demo-patched=$c"
  [ $ok = ok ] || { tail -15 $W/out0; echo ---; tail -15 $W/out1; head -c 600 $W/missing; }
  cd /; rm -rf "$W"
done
