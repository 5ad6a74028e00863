#!/bin/bash
# usage: trybug.sh [--demo-only] ID...
# Applies a planted change, builds, runs the stable tests, its demonstration
# and the check of its property, and undoes it.
root=$(cd "$(dirname "$0")/.." && pwd)
only=
[ "$1" = --demo-only ] && only=1 && shift
for id in "$@"; do
    d=$root/seeded/$id
    p=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$d/meta.json")
    clean=-
    if [ -z "$SKIP_CLEAN" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/demo.clean 2>&1); clean=$?; fi
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/build.out 2>&1; build=$?
    bash /opt/vp/test.sh /tmp/test.json >/tmp/test.out 2>&1
    failed=$(python3 -c "
import json
base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
names=base.get('stable') or base.get('tests') or base
ok=set(t.get('passed',[]))
print(len([n for n in names if n not in ok]) if isinstance(names,list) else '?')")
    (cd /repo && bash "$d/demo.sh" >/tmp/demo.bug 2>&1); bug=$?
    check=
    if [ -z "$only" ]; then
        n=farming; [ "${p#C}" -gt 20 ] && n=amm
        out=$("$root/check.sh" $n "$p" --evidence /tmp/ev --replays /tmp/rp 2>&1); check=$?
        check="check=$check $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^run ' | cut -c1-160)"
    fi
    git -C /repo checkout -- .
    echo "$id $p clean=$clean build=$build failed=$failed bug=$bug $check"
done
