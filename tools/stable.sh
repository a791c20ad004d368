#!/bin/bash
# stable.sh DIR : run the repository's stable tests (without the slow perf test) of DIR in a private network namespace
D=$(realpath "${1:-/repo}")
OUT=$(mktemp /tmp/stable.XXXXXX)
R=$(mktemp -d /tmp/stabled.XXXXXX)
cd "$D" || exit 2
PYTHONPATH="$D" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 unshare -Urn bash -c "ip link set lo up; timeout -k 10 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 -o python_classes= -o 'python_files=unittest_*.py functest_*.py' --ignore=tests/functest_modbus_rtu.py -o junit_family=xunit2 --junitxml=$R/junit.xml tests" > "$R/log" 2>&1
/opt/venv/bin/python - "$R/junit.xml" <<'P'
import json, sys, xml.etree.ElementTree as ET
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
got = {}
for tc in ET.parse(sys.argv[1]).getroot().iter('testcase'):
    name = tc.get('classname') + '::' + tc.get('name')
    got[name] = not any(c.tag in ('failure', 'error', 'skipped') for c in tc)
bad = [t for t in sorted(base) if 'perftest' not in t and not got.get(t)]
new = [t for t, ok in got.items() if ok and t not in base]
print('stable: %d of %d pass' % (len([t for t in base if got.get(t)]), len([t for t in base if 'perftest' not in t])))
for t in bad: print('FAIL', t)
for t in new: print('newly passing', t)
sys.exit(1 if bad else 0)
P
rc=$?
rm -rf "$R" "$OUT"
exit $rc
