#!/bin/bash
# seed.sh ID [CHECK]   confirms a planted bug: demo passes on the clean tree, patch builds, tests pass, demo fails, check fires. Leaves /repo clean.
# (development helper; no check uses it)
id=$1; d=/verif/seeded/$id; ck=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo; trap '' PIPE
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 3; }
if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo BUILD-CLEAN-FAILED; exit 3; }
 T=$(mktemp -d); cp -r $d/. $T; timeout 300 bash $T/demo.sh >/tmp/seed.demo0 2>&1; r0=$?; rm -rf "$T"; echo "demo clean rc=$r0"; fi
git apply $d/patch.diff || exit 3
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; tail -1 /tmp/seed.log
T=$(mktemp -d); cp -r $d/. $T; timeout 300 bash $T/demo.sh >/tmp/seed.demo1 2>&1; r1=$?; rm -rf "$T"; echo "demo patched rc=$r1: $(tail -1 /tmp/seed.demo1)"
for c in $ck; do python3 /verif/checks/run.py $c > /tmp/seed.chk 2>&1; echo "check $c rc=$?"; grep -v ^property= /tmp/seed.chk | head -4|cut -c1-400; done
git checkout -- .
