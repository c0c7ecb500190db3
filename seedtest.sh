#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a private bind-mounted copy of /repo: builds, tests pass, demo passes without and fails with it, check reports it.
one() {
	id=$1; wt=/tmp/wt.$id; log=/tmp/seed.$id.log
	rm -rf "/tmp/wt.$id"; mkdir -p $wt; cp -a /repo/. $wt/
	unshare -m bash -c '
	id=$1; wt=$2; mount --bind $wt /repo; cd /repo
	d=/verif/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $d/meta.json)
	tmp=$(mktemp -d); cp -r $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
	bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || echo "$id: CLEAN BUILD FAILED"
	timeout 300 bash $tmp/demo.sh >/tmp/seed.$id.demo0 2>&1; c=$?
	git apply --whitespace=nowarn $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
	bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo "$id: BUILD FAILED"; exit; }
	timeout 300 bash $tmp/demo.sh >/tmp/seed.$id.demo1 2>&1; b=$?
	cd /verif; VERIF_TIER=quick timeout 900 python3 check.py $prop >/tmp/seed.$id.check 2>&1; k=$?
	cd /repo; if [ -z "$NOTESTS" ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
	miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"/tmp/seed.$id.json\"))
print(len(set(map(str,b[\"stable\"]))-set(map(str,o[\"passed\"]))))"); else miss=skipped; fi
	echo "$id: property $prop demo clean=$c patched=$b tests missing=$miss check=$k $(grep -c VIOLATION /tmp/seed.$id.check)"
	rm -rf "$tmp"
	' _ $id $wt
	rm -rf "/tmp/wt.$id"
}
for i in "$@"; do one $i; done
