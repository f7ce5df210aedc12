#!/bin/bash
# plant.sh ID...: checks each planted change in /verif/seeded/ID in a private copy of /repo bound over /repo in a mount
# namespace of its own: builds, passes the stable tests, demo passes without and fails with it, and which checks notice.
verif=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; w=/tmp/plant.$id; rm -rf "$w"; mkdir -p "$w/repo" "$w/demo" "$w/verif"
    (cd /repo && tar cf - --exclude=./_build .) | tar xf - -C "$w/repo"
    cp -a "$verif/seeded/$id/." "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
    (cd "$verif" && tar cf - --exclude=./build --exclude=./seeded --exclude=./.git .) | tar xf - -C "$w/verif"; mkdir -p "$w/verif/build"
    prop=$(python3 -c "import json;print(json.load(open('$verif/seeded/$id/meta.json'))['property'])")
    unshare -Urm bash -c "
        mount --bind $w/repo /repo; cd /repo
        timeout 300 bash $w/demo/demo.sh >$w/demo0.log 2>&1; d0=\$?
        git -C /repo apply --check $verif/seeded/$id/patch.diff || { echo '$id: DOES NOT APPLY'; exit; }
        git -C /repo apply $verif/seeded/$id/patch.diff
        if [ -z \"\$NOTEST\" ]; then
        bash /opt/vp/build.sh >$w/b.log 2>&1 && b=ok || b=FAIL
        bash /opt/vp/test.sh $w/o.json >$w/t.log 2>&1
        t=\$(python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w/o.json'))
s=b.get('stable') or b.get('passed'); print([x for x in s if x not in o['passed']])\")
        fi
        cd /repo; timeout 300 bash $w/demo/demo.sh >$w/demo1.log 2>&1; d1=\$?
        cd $w/verif; VERIF_SEED=1 timeout 900 bash run.sh $prop quick >$w/check.log 2>&1; c=\$?
        echo \"$id: property=$prop build=\$b broken-tests=\$t demo: clean=\$d0 patched=\$d1  check exit=\$c \$(grep -m1 VIOLATION $w/check.log)\"
        sed -n 1,6p $w/check.log | cut -c1-300 | sed 's/^/      /'
    "
    [ -n "$KEEP" ] || rm -rf "$w"
}
export verif; export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
