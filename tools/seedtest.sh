#!/bin/bash
# seedtest.sh ID [--full]: apply a planted bug to /repo, run its property's check (--full: also build, demo and tests), undo.
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" = --full ]; then
  bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || { echo "$1: BUILD FAILS"; tail -5 /tmp/seedbuild.log; exit 1; }
  (cd /repo && bash $d/demo.sh) >/tmp/seeddemo.log 2>&1; echo "$1: demo with patch: exit $? ($(tail -1 /tmp/seeddemo.log | cut -c1-150))"
  bash /opt/vp/test.sh /tmp/seedtests.json > /tmp/seedtests.log 2>&1
  python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seedtests.json'))
def flat(d):
    for k in ('stable','passed','pass','stable_pass'):
        if k in d: return set(d[k])
    return None
bs,rs=flat(b),flat(r)
print("tests missing:",sorted(bs-rs)[:5] if bs is not None and rs is not None else ("?",list(b)[:5],list(r)[:5]))
X
fi
cd /verif && python3 tools/check.py $p > /tmp/seedcheck.log 2>&1; echo "$1: check $p exit $?: $(grep -m1 '^violation' /tmp/seedcheck.log | cut -c1-200)"
