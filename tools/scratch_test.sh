#!/bin/bash
# scratch_test.sh DIR: run the repository's stable tests against a scratch copy; prints those that fail
set -u
D=$(realpath "$1")
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
unset TTPCACHEFOLDER TTP_TEMPLATES_DIR
export PYTHONPATH="$D"
rm -rf "$D/ttp/ttp_dict_cache.pickle" "$D/test/pytest/Output"
cd "$D/test/pytest"
/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore -o junit_family=xunit2 --junitxml="$D/.junit.xml" >"$D/.pytest.out" 2>&1
rm -rf "$D/ttp/ttp_dict_cache.pickle" "$D/test/pytest/Output"
/opt/venv/bin/python - "$D/.junit.xml" <<'P'
import sys, json, xml.etree.ElementTree as ET
ok=set()
for c in ET.parse(sys.argv[1]).getroot().iter('testcase'):
    if not any(x.tag in('failure','error','skipped') for x in c):
        ok.add(c.get('classname').split('.')[-1]+'::'+c.get('name'))
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[s for s in st if s not in ok]
print('STABLE', len(st), 'FAILING', len(bad)); print('\n'.join(bad))
P
rm -f "$D/.junit.xml"
