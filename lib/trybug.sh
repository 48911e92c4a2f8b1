#!/bin/bash
# Development aid: confirms planted bugs in a scratch copy (bind-mounted over /repo and /opt/vp in a private mount namespace).
# usage: trybug.sh SLOT ID...     results in /tmp/slot$SLOT/<id>.result
slot=/tmp/slot$1; shift
mkdir -p $slot
[ -d $slot/vp ] || cp -a /opt/vp $slot/vp
mkdir -p $slot/demo
export slot
for id in "$@"; do
  rm -rf "$slot/repo"; cp -a /repo $slot/repo; git -C $slot/repo checkout -q -- . ; git -C $slot/repo clean -qfd
  rm -rf "$slot/demo"; mkdir -p $slot/demo; cp -a /verif/seeded/$id/. $slot/demo/; rm -f $slot/demo/*.diff $slot/demo/meta.json
  id=$id unshare -m bash -c '
    mount --bind $slot/repo /repo; mount --bind $slot/vp /opt/vp
    out=$slot/$id.result; : > $out
    bash /opt/vp/build.sh > $slot/build.log 2>&1 || echo "BASE BUILD FAILED" >> $out
    (cd /repo && timeout 300 bash $slot/demo/demo.sh) > $slot/$id.demo0 2>&1; echo "demo base rc=$?" >> $out
    git -C /repo apply /verif/seeded/$id/patch.diff || echo "PATCH FAILED" >> $out
    bash /opt/vp/build.sh > $slot/build.log 2>&1 || echo "BUILD FAILED" >> $out
    (cd /repo && timeout 300 bash $slot/demo/demo.sh) > $slot/$id.demo1 2>&1; echo "demo patched rc=$?" >> $out
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh $slot/t.json > $slot/test.log 2>&1
    python3 - $slot/t.json >> $out <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open(sys.argv[1]))
passed=set(r.get("passed",[])) if isinstance(r.get("passed"),list) else {k for k,v in r.items() if v=="passed"}
miss=[x for x in b if x not in passed]
print("tests broken:",len(miss),miss[:6])
P
    fi
  '
  echo "$id: $(tr '\n' ';' < $slot/$id.result)"
done
