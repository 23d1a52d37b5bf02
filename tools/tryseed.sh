#!/bin/bash
# tryseed.sh ID [CHECK ARGS...]: confirms a seeded change in a scratch copy and runs its check against it.
id=$1; shift
d=/verif/seeded/$id
s=/tmp/seed_$id
rm -rf "/tmp/seed_$id"; cp -a /repo "$s"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p /tmp/seedlog
log=/tmp/seedlog/$id.log
demo=$(mktemp -d /tmp/demo_$id.XXXX); cp "$d"/* "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
if [ -z "$CHECKONLY" ]; then
unshare -Urmn bash -c '
mount --bind "$1" /repo || exit 9
ip link set lo up
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$3/demo.sh" >/tmp/seedlog/$4.clean 2>&1; a=$?
git apply "$2/patch.diff" || { echo "$4: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/seedlog/$4.build 2>&1 || { echo "$4: BUILD FAILS"; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/seedlog/$4.json 2>&1 | tail -1)
timeout 300 bash "$3/demo.sh" >/tmp/seedlog/$4.bad 2>&1; b=$?
echo "$4: demo clean=$a patched=$b tests: $t"
' _ "$s" "$d" "$demo" "$id"
else
(cd "$s" && git apply "$d/patch.diff")
fi
if [ -z "$NOCHECK" ]; then
cd /verif && VERIF_REPO=$s timeout 900 ./check $prop quick "$@" >"$log" 2>&1; rc=$?
echo "$id: check $prop rc=$rc $(grep -m1 VIOLATION "$log")"
fi
rm -rf "/tmp/seed_$id" "$demo"
