#!/bin/bash
# tools/seedtest.sh [-t] ID...: apply each planted change to /repo, run demo,
# (with -t) the test suite, and all checks; undo the change.
tests=0; [ "$1" = -t ] && { tests=1; shift; }
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >>/tmp/seed_demo.log 2>&1); b=$?
  t=-
  if [ $tests = 1 ]; then
    bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
    t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/seed_t.json'))['passed'])
print('tests-ok' if b<=o else 'TESTS-BROKEN %s' % sorted(b-o)[:3])
P
)
  fi
  python3 /verif/check.py all >/tmp/seed_c.log 2>&1
  git -C /repo checkout -q -- .
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  got=$(grep -o 'VIOLATION property=[A-Z0-9]*' /tmp/seed_c.log | sed 's/.*=//' | tr '\n' ' ')
  err=$(grep -c '^ERROR' /tmp/seed_c.log)
  echo "$id prop=$prop demo:$a/$b $t caught-by: $got $(case " $got" in *" $prop "*) echo CAUGHT;; *) echo MISSED;; esac) errors=$err"
done
