#!/bin/bash
# testcopy.sh DIR : runs the stable tests of a copy of the repository at DIR; prints stable tests that do not pass
DIR=${1:?}; J=${2:-5}
export PYTHONPATH=$DIR/src:$DIR/test:/opt/vp/pytest_plugins PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
WORK=$(mktemp -d) || exit 1
trap 'rm -rf "$WORK"' EXIT
export TMPDIR=$WORK
cd "$DIR" || exit 1
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p txds_isolated_tmp -n "$J" --dist loadfile --timeout=120 --tb=short \
  --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$WORK/junit.xml" test > "$WORK/log" 2>&1
/usr/bin/python3 /opt/vp/results.py "$WORK/out.json" "junit:$WORK/junit.xml" > /dev/null
/usr/bin/python3 - "$WORK/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
passed=set(o.get('passed') or [k for k,v in o.items() if v=='passed'])
bad=[t for t in b['stable'] if t not in passed]
print("STABLE OK" if not bad else "STABLE FAIL %d: %s"%(len(bad),bad[:5]))
P
