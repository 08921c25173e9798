#!/bin/bash
# usage: try.sh <id>  - verify one planted bug in a scratch copy: applies, builds, passes the tests, demo 0/nonzero
id=$1; s=/verif/seeded/$id; w=/tmp/seed.$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 1
cp /verif/tools/seedkit/demo.sh /verif/tools/seedkit/flash.rs "$s/"
bash "$s/demo.sh" > /tmp/seed.$id.clean 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$s/demo.sh" > /tmp/seed.$id.bug 2>&1; b=$?
sed "s#cd /repo#cd $w#" /opt/vp/env.sh > /tmp/seed.$id.env
sed "s#/opt/vp/env.sh#/tmp/seed.$id.env#g; s#/repo#$w#g" /opt/vp/test.sh > /tmp/seed.$id.test.sh
bash /tmp/seed.$id.test.sh /tmp/seed.$id.json > /tmp/seed.$id.log 2>&1
n=$(python3 -c "import json;print(len(json.load(open('/tmp/seed.$id.json'))['passed']))" 2>/dev/null)
echo "$id: demo clean=$a bug=$b tests passed=$n"
tail -2 /tmp/seed.$id.bug
rm -rf "$w"
