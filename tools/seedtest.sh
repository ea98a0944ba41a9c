#!/bin/bash
# tools/seedtest.sh ID [nocheck]: confirm a planted bug (applies, builds, stable tests pass, demo ok/fails) and run its property's check.
id=$1; d=/verif/seeded/$id
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id base build fails"; exit 1; }
bash $d/demo.sh >/tmp/demo.$$ 2>&1; c=$?; [ $c = 0 ] || { echo "$id DEMO FAILS ON CLEAN ($c)"; tail -3 /tmp/demo.$$; exit 1; }
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 1; }
trap 'git -C /repo checkout -- . ; rm -f /tmp/demo.$$ /tmp/st.$$' EXIT
if ! bash /opt/vp/build.sh >/tmp/st.$$ 2>&1; then echo "$id DOES NOT BUILD"; tail -5 /tmp/st.$$; exit 1; fi
bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
python3 - <<'P' || { echo "$id BREAKS STABLE TESTS"; exit 1; }
import json,sys
o=json.load(open('/tmp/st.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
if m: print(sorted(m)[:5])
sys.exit(1 if m else 0)
P
timeout 300 bash $d/demo.sh >/tmp/demo.$$ 2>&1; c=$?; [ $c != 0 ] || { echo "$id DEMO PASSES WITH BUG"; exit 1; }
if [ "$2" != nocheck ]; then
  (cd /verif && timeout 900 ./check $prop --tier quick) >/tmp/st.$$ 2>&1; c=$?
  if [ $c = 1 ] && grep -q "VIOLATION property=$prop" /tmp/st.$$; then echo "$id ok, CAUGHT by $prop"; else echo "$id valid, MISSED by $prop (exit $c)"; tail -3 /tmp/st.$$; fi
else echo "$id valid"; fi
