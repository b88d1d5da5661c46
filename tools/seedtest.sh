#!/bin/bash
# seedtest.sh ID [nodemo]: try one planted bug: demo on the clean tree, build+tests+demo+check with the patch, then undo
ID="$1"; S="/verif/seeded/$ID"; P="$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")"
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
if [ "$2" != nodemo ]; then bash "$S/demo.sh" >/tmp/sd.log 2>&1; echo "demo clean: $?"; fi
git apply "$S/patch.diff" || exit 9
if [ "$2" != nodemo ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/st.json >/tmp/stt.log 2>&1; python3 - <<'Y'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json'))
def names(x):
    return x
p=t.get('passed') or t.get('pass') or [k for k,v in t.get('tests',{}).items() if v in('pass','passed','ok')]
print("tests passed:", len(p))
Y
bash "$S/demo.sh" >/tmp/sd2.log 2>&1; echo "demo patched: $? ($(tail -1 /tmp/sd2.log | cut -c1-150))"
fi
(cd /verif && bash check.sh "$P" >/tmp/sc.log 2>&1); rc=$?; echo "check $P: $rc $(grep -m1 -B1 VIOLATION /tmp/sc.log | cut -c1-300)"
git checkout -q -- .
